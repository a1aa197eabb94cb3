// Concurrent driver for Async::Event and Async::wait (C15).
#include <errno.h>
#include <new>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <unistd.h>
#include <rpp/base.h>
#include <rpp/async.h>
#include <rpp/asyncio.h>
#include <rpp/pool.h>
#include "cc.h"
using namespace cc;
namespace RA = rpp::Async;
namespace {
constexpr int NSMAX = 8, TMAX = 8;
alignas(RA::Pool<>) char pool_mem[sizeof(RA::Pool<>)];
RA::Pool<>* pool = nullptr;
alignas(RA::Event) char slot_mem[NSMAX][sizeof(RA::Event)];
RA::Event* slot(long j) {
    return reinterpret_cast<RA::Event*>(slot_mem[j - 1]);
}
RA::Event empty() {
    RA::Event a;
    RA::Event b = static_cast<RA::Event&&>(a);
    return a;
}
struct Events : Driver {
    int ns = 0;
    long base_blocks = 0, base_fds = 0;
    // what the driver knows of the slots, to skip operations that would not be legal in this schedule
    int kind[NSMAX + 1] = {}, bytes[NSMAX + 1] = {}, users[NSMAX + 1] = {}, src_fd[NSMAX + 1] = {};
    bool changing[NSMAX + 1] = {};
    int wlo[TMAX] = {}, whi[TMAX] = {};
    bool in_op[TMAX] = {};
    void setup(const Op& r) override {
        ns = (int)r.get("ns");
        {
            RA::Event e;
            e.signal();
            (void)RA::Event::wait_any(rpp::Slice<RA::Event>{&e, 1});
        }
        for(int j = 1; j <= ns; j++) new(slot(j)) RA::Event{empty()};
        if(r.get("pool")) {
            pool = new(pool_mem) RA::Pool<>;
            {
                // so that the pool has room for all timers
                RA::Task<void> a[4] = {RA::wait(*pool, 1), RA::wait(*pool, 1), RA::wait(*pool, 2), RA::wait(*pool, 2)};
                for(auto& t : a) t.block();
                rt::drain();
            }
            rt::drain();
        }
        forget_events();
        base_blocks = rt::arena_blocks();
        base_fds = rt::open_fds();
    }
    static bool changes(const std::string& n) {
        return n == "new" || n == "src" || n == "snk" || n == "drop" || n == "mv";
    }
    // Bookkeeping is uninstrumented, so that it is not interleaved with other threads'.
    struct Use {
        int kind; // 0 uses, 1 changes
        int lo, hi, other;
        char op;
    };
    static Use use_of(const Op& o) {
        const std::string& n = o.name;
        Use u{changes(n), 1, 0, 0, n == "sig" || n == "rst" ? 'e' : n == "try" ? 'a' : n == "pw" ? 'w' : n == "pr" ? 'r' : n == "fill" || n == "room" ? 'o' : n == "wait" ? 'a' : '-'};
        if(n == "wait") {
            u.lo = (int)o.get("lo");
            u.hi = (int)o.get("hi");
        } else if(n != "tmr") {
            u.lo = u.hi = (int)o.get("j");
            if(o.has("i") && o.get("i") != o.get("j")) u.other = (int)o.get("i");
        }
        return u;
    }
    __attribute__((no_sanitize("thread"), noinline)) bool acquire(Use u) {
        for(int x = u.lo; x <= u.hi; x++) {
            if(changing[x] || (u.kind && users[x])) return false;
            if(u.op == 'a' && !kind[x]) return false;
        }
        if(u.other && (changing[u.other] || users[u.other])) return false;
        if(u.op == 'e' && kind[u.lo] != 1) return false;
        if((u.op == 'w' || u.op == 'r') && kind[u.lo] != 2) return false;
        if(u.op == 'o' && kind[u.lo] != 3) return false;
        if(u.op == 'r' && !bytes[u.lo]) return false;
        if(u.op == 'r') bytes[u.lo]--;
        for(int x = u.lo; x <= u.hi; x++) {
            users[x]++;
            changing[x] = u.kind;
        }
        if(u.other) {
            users[u.other]++;
            changing[u.other] = true;
        }
        return true;
    }
    __attribute__((no_sanitize("thread"), noinline)) void release(Use u) {
        if(u.op == 'w') bytes[u.lo]++;
        for(int x = u.lo; x <= u.hi; x++) {
            users[x]--;
            if(u.kind) changing[x] = false;
        }
        if(u.other) {
            users[u.other]--;
            changing[u.other] = false;
        }
    }
    void perform(const Op& op, int t) {
        const std::string& n = op.name;
        int j = (int)op.get("j"), i = (int)op.get("i");
        Use u = use_of(op);
        if(!acquire(u)) return;
        call(op, t);
        if(t < TMAX) {
            wlo[t] = (int)op.get("lo");
            whi[t] = (int)op.get("hi");
            in_op[t] = n == "wait";
        }
        long v = 0;
        if(n == "sig")
            slot(j)->signal();
        else if(n == "rst")
            slot(j)->reset();
        else if(n == "try")
            v = slot(j)->try_wait();
        else if(n == "new") {
            *slot(j) = RA::Event{};
            kind[j] = 1;
        } else if(n == "src") {
            int fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE);
            *slot(j) = RA::Event::of_sys(fd, EPOLLIN);
            kind[j] = 2;
            bytes[j] = 0;
            src_fd[j] = fd;
        } else if(n == "snk") {
            int fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
            *slot(j) = RA::Event::of_sys(fd, EPOLLOUT);
            kind[j] = 3;
            src_fd[j] = fd;
        } else if(n == "fill") {
            // no room left (which it may be already)
            uint64_t all = ~1ull;
            if(write(src_fd[j], &all, 8) != 8 && errno != EAGAIN) err("sink");
        } else if(n == "room") {
            uint64_t all = 0;
            if(read(src_fd[j], &all, 8) != 8 && errno != EAGAIN) err("sink");
        } else if(n == "drop") {
            *slot(j) = empty();
            kind[j] = 0;
        } else if(n == "pw") {
            uint64_t one = 1;
            if(write(src_fd[j], &one, 8) != 8) err("source");
        } else if(n == "pr") {
            uint64_t one = 0;
            if(read(src_fd[j], &one, 8) != 8) err("source");
        } else if(n == "mv") {
            if((op.get("i") + op.get("j")) % 3 == 0 && i != j) {
                // by construction into the place of a destroyed one
                slot(i)->~Event();
                new(slot(i)) RA::Event{static_cast<RA::Event&&>(*slot(j))};
            } else
                *slot(i) = static_cast<RA::Event&&>(*slot(j));
            if(i != j) {
                kind[i] = kind[j];
                bytes[i] = bytes[j];
                src_fd[i] = src_fd[j];
                kind[j] = 0;
            }
        } else if(n == "wait") {
            long lo = op.get("lo"), hi = op.get("hi");
            v = (long)RA::Event::wait_any(rpp::Slice<RA::Event>{slot(lo), (rpp::u64)(hi - lo + 1)});
        } else if(n == "tmr") {
            uint64_t before = rt::now_ns();
            long ms = op.get("ms");
            RA::wait(*pool, (rpp::u64)ms).block();
            v = rt::now_ns() - before >= (uint64_t)ms * 1000000;
        } else
            _Exit(96);
        ret(op, t, v);
        if(t < TMAX) in_op[t] = false;
        release(u);
    }
    void step(int t, const Op& op) override {
        perform(op, t);
    }
    void finish(bool) override {
        note("quiet", 0);
        for(int again = 0; again < 30; again++)
            for(int t = 1; t < TMAX; t++)
            if(in_op[t]) {
                long lo = wlo[t], hi = whi[t], j = lo + (t * 7 + hi) % (hi - lo + 1);
                perform(Op{kind[j] == 2 ? "pw" : kind[j] == 3 ? "room" : "sig", {{"j", j}}}, 0);
                rt::drain();
                note("quiet", 0);
            }
        note("fds", 0, rt::open_fds() - base_fds);
        for(int j = 1; j <= ns; j++) {
            Op o{"drop", {{"j", j}}};
            perform(o, 0);
        }
        rt::drain();
        note("fini", 0, rt::open_fds() - base_fds, pool ? 0 : rt::arena_blocks() - base_blocks); // (a live pool keeps what it has grown)
    }
};
} // namespace
int main(int argc, char** argv) {
    Events d;
    return drive(argc, argv, d);
}
