// Concurrent driver for mutexes, Lock objects, conditions, flags and atomics (C11, C12).
#include <new>
#include <rpp/base.h>
#include "cc.h"
using namespace cc;
namespace RT = rpp::Thread;
namespace {
constexpr int NM = 4, NC = 4, NF = 4, NA = 4, NG = 4, NT = 16;
struct LockSlot {
    alignas(RT::Lock) char mem[sizeof(RT::Lock)];
    bool there = false;
    RT::Lock& get() {
        return *reinterpret_cast<RT::Lock*>(mem);
    }
};
struct World {
    RT::Mutex mu[NM];
    RT::Cond cond[NC];
    RT::Flag flag[NF];
    RT::Atomic atom[NA];
    Pay cell[NM];
};
struct Sync : Driver {
    World* w = nullptr;
    // what each thread holds; touched by that thread only
    bool held[NT][NM] = {};
    int in_slot[NT][NG] = {};
    LockSlot slot[NT][NG];
    void setup(const Op&) override {
        w = new World;
    }
    void leave(int t) override {
        // whatever is still held stays held: nobody may depend on implicit release
    }
    bool slotted(int t, long m) {
        for(int g = 0; g < NG; g++)
            if(in_slot[t][g] == m + 1) return true;
        return false;
    }
    void step(int t, const Op& op) override {
        const std::string& n = op.name;
        long m = op.get("m", 1) - 1, c = op.get("c", 1) - 1, f = op.get("f", 1) - 1, a = op.get("a", 1) - 1;
        long g = op.get("g", 1) - 1, h = op.get("h", 1) - 1, x = op.get("x"), y = op.get("y");
        if(n == "rd" || n == "put") {
            if(!held[t][m]) return;
            if(n == "rd") {
                long v = w->cell[m].value();
                rt::yield();
                note("rd", t, m + 1, v);
            } else {
                static long next = 0;
                long v = ++next;
                w->cell[m].set((int)v);
                note("put", t, m + 1, v);
                rt::yield();
            }
            return;
        }
        bool have = held[t][m];
        if((n == "lock" || n == "try" || n == "glock") && have) return;
        if(n == "unlock" && (!have || slotted(t, m))) return;
        if(n == "wait" && !have) return;
        if(n == "glock" && slot[t][g].there) return;
        call(op, t);
        long v = 0;
        if(n == "lock") {
            w->mu[m].lock();
            held[t][m] = true;
        } else if(n == "unlock") {
            held[t][m] = false;
            w->mu[m].unlock();
        } else if(n == "try") {
            v = w->mu[m].try_lock();
            if(v) held[t][m] = true;
        } else if(n == "glock") {
            new(slot[t][g].mem) RT::Lock{w->mu[m]};
            slot[t][g].there = true;
            in_slot[t][g] = (int)m + 1;
            held[t][m] = true;
        } else if(n == "gmove") {
            if(g == h) {
                if(slot[t][g].there) {
                    RT::Lock& l = slot[t][g].get();
                    l = static_cast<RT::Lock&&>(l);
                }
            } else if(slot[t][g].there) {
                if(slot[t][h].there) {
                    if(in_slot[t][h]) held[t][in_slot[t][h] - 1] = false;
                    slot[t][h].get() = static_cast<RT::Lock&&>(slot[t][g].get());
                } else
                    new(slot[t][h].mem) RT::Lock{static_cast<RT::Lock&&>(slot[t][g].get())};
                slot[t][h].there = true;
                in_slot[t][h] = in_slot[t][g];
                in_slot[t][g] = 0;
            } else if(slot[t][h].there) {
                // an absent object moved in: as a drop
                if(in_slot[t][h]) held[t][in_slot[t][h] - 1] = false;
                in_slot[t][h] = 0;
                slot[t][h].get().~Lock();
                slot[t][h].there = false;
            }
        } else if(n == "gdrop") {
            if(slot[t][g].there) {
                if(in_slot[t][g]) held[t][in_slot[t][g] - 1] = false;
                in_slot[t][g] = 0;
                slot[t][g].get().~Lock();
                slot[t][g].there = false;
            }
        } else if(n == "wait")
            w->cond[c].wait(w->mu[m]);
        else if(n == "signal")
            w->cond[c].signal();
        else if(n == "bcast")
            w->cond[c].broadcast();
        else if(n == "fsig")
            w->flag[f].signal();
        else if(n == "fblk")
            w->flag[f].block();
        else if(n == "frdy")
            v = w->flag[f].ready();
        else if(n == "incr")
            v = w->atom[a].incr();
        else if(n == "decr")
            v = w->atom[a].decr();
        else if(n == "xchg")
            v = w->atom[a].exchange(x);
        else if(n == "cas")
            v = w->atom[a].compare_and_swap(x, y);
        else if(n == "load")
            v = w->atom[a].load();
        else
            _Exit(96);
        ret(op, t, v);
    }
};
} // namespace
int main(int argc, char** argv) {
    Sync d;
    return drive(argc, argv, d);
}
