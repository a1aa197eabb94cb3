// Interpreter for concurrent scripts, on top of the runtime in rt.h. A script is a set of thread
// programs; the parent process explores schedules of it, one forked child per schedule, and writes
// every distinct history of call and return events once.
#pragma once
#include <string>
#include <vector>
#include "rt.h"

namespace cc {

struct Op {
    std::string name;
    std::vector<std::pair<std::string, long>> args;
    long get(const char* k, long dflt = 0) const;
    bool has(const char* k) const;
};
using Script = std::vector<Op>;

// One JSON event. Everything here is uninstrumented.
struct Ev {
    std::string s;
    Ev(const char* op, int t);
    Ev& num(const char* k, long v);
    Ev& str(const char* k, const std::string& v);
    Ev& nums(const char* k, const std::vector<long>& v);
    Ev& args(const Op& op);
    void emit();
    void emit_first(); // before everything recorded so far
};
// call/return of an operation by program thread t
void call(const Op& op, int t);
void ret(const Op& op, int t, long v = 0, const char* out = "ok");
void note(const char* op, int t, long a = 0, long b = 0);
void forget_events(); // drops what was recorded so far
[[noreturn]] void err(const char* what, const char* detail = "");

// instrumented value
struct Pay {
    int v;
    int id;
    Pay* self;
    Pay();
    explicit Pay(int x);
    Pay(Pay&& o) noexcept;
    Pay& operator=(Pay&& o) noexcept;
    Pay(const Pay& o);
    Pay& operator=(const Pay& o);
    ~Pay();
    int value() const;
    void set(int x);
};
long live();      // Pay objects alive
long made();

struct Driver {
    // in the child, before threads exist; main thread
    virtual void setup(const Op& reset) = 0;
    // one operation of a program thread
    virtual void step(int t, const Op& op) = 0;
    // at the start and end of a program thread
    virtual void enter(int) {
    }
    virtual void leave(int) {
    }
    // after the threads have ended or are stuck, main thread: emits what it likes
    virtual void finish(bool stuck) {
    }
    virtual ~Driver() = default;
};
int drive(int argc, char** argv, Driver& d);
// program thread state for the final event: 0 finished, otherwise 1-based index of the operation it is in
extern int at_op[64];
extern bool stuck;
} // namespace cc
