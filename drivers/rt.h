// Deterministic concurrency runtime. The library and the driver are compiled with
// -fsanitize=thread, but linked against this runtime instead of TSan's: every atomic operation,
// pthread/futex/epoll call (and optionally every plain access) is a scheduling point of a
// user-level scheduler that lets one thread run at a time. It also tracks happens-before between
// threads, and accesses to freed memory.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>

namespace rt {

struct Config {
    int mode = 0;          // 0 random walk, 1 priorities with change points, 2 given prefix (exhaustive)
    uint64_t seed = 1;
    int plain = 0;         // plain accesses to heap and globals are scheduling points too
    int cores = 2;         // reported number of processors
    int reuse = 0;         // freed memory is handed out again at once (and not watched)
    int still = 0;         // reading the clock takes no time
    int faults = 0;        // inject EINTR, EAGAIN, spurious wakeups
    int bound = 2;         // preemption bound (mode 2)
    long max_steps = 200000;
    long est_steps = 400;  // expected number of steps (mode 1)
};

// Exploration state shared with the parent process
struct Choices {
    int n;                 // decisions taken
    int overflow;
    struct C {
        uint8_t options, chosen;
    } c[1 << 16];
    int prefix_n;
    uint8_t prefix[1 << 16];
    long steps;
};

void start(const Config& cfg, Choices* ch);
void drain();                       // main thread: until every other thread has ended or is stuck
void yield();                       // scheduling point
int self();                         // index of the calling thread; 0 is main
int choose(int n);                  // nondeterministic choice
bool is_done(int t);
bool is_blocked(int t);
int n_threads();
int unreleased();                   // threads that ended and were neither joined nor detached
uint64_t now_ns();                  // virtual time
long arena_blocks();                // blocks allocated and not freed through malloc
long arena_bytes();
bool own_stack(const void* p);
bool arena_freed(const void* p);
int open_fds();                     // descriptors opened through the runtime and not closed
void sleep_until(uint64_t ns);

// Annotated accesses to user data, checked for happens-before ordering
void data_read(const void* p, size_t n);
void data_write(const void* p, size_t n);
void data_forget(const void* p, size_t n);

// Called once on the first error (misuse, race, use after free, deadlock of all threads); must not
// return. what is a short stable word.
extern void (*on_error)(const char* what, const char* detail);
extern void (*on_stuck)();
extern void (*on_join)(); // a thread is about to join another
// last processor a thread was bound to
int affinity(int t);
} // namespace rt
