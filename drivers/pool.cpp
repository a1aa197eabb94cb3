// Concurrent driver for Async::Pool (C14): jobs are coroutines that follow a small program.
#include <new>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <rpp/base.h>
#include <rpp/async.h>
#include <rpp/asyncio.h>
#include <rpp/pool.h>
#include "cc.h"
using namespace cc;
namespace RA = rpp::Async;
namespace {
constexpr int NJMAX = 64, NE = 10;
using TV = RA::Task<void>;
struct Prog {
    int n = 0;
    int step[4] = {};
};
int NJ = 0;
alignas(RA::Pool<>) char pool_mem[sizeof(RA::Pool<>)];
RA::Pool<>* pool = nullptr;
alignas(RA::Event) char alias_mem[NE][sizeof(RA::Event)]; // never destroyed: the pool owns the descriptor
RA::Event* alias[NE];
int evfd[NE];
bool given[NE];
TV* task[NJMAX];
int thr0 = 0, thr1 = 0;
uint64_t t0 = 0;

long now_us() {
    return (long)((rt::now_ns() - t0) / 1000);
}
void at(const char* what, int k) {
    int me = rt::self();
    Ev(what, 0).str("k0", "n").num("k", k).num("w", me >= thr0 && me < thr1 ? me - thr0 + 1 : 0).num("now", now_us()).emit();
}
struct Local {
    int k;
    Pay p;
    explicit Local(int k) : k(k), p(k * 100) {
    }
    ~Local() {
        p.value();
        at("gone", k);
    }
};
Prog child_prog(int v) {
    switch(v) {
    case 1: return {1, {1}};
    case 2: return {2, {1, 1}};
    case 3: return {1, {22}};
    case 4: return {2, {25, 1}};
    case 5: return {2, {1, 23}};
    default: return {};
    }
}
RA::Event take_event(int e) {
    given[e] = true;
    return RA::Event::of_sys(evfd[e], EPOLLIN);
}
TV job(int k, Prog p) {
    Local local{k};
    TV kid;
    for(int i = 0; i < p.n; i++) {
        int c = p.step[i];
        local.p.set(k * 100 + i);
        if(c == 1) {
            at("park", k);
            co_await pool->suspend();
            at("go", k);
        } else if(c == 2) {
            at("park", k);
            co_await kid;
            at("go", k);
        } else if(c < 20) {
            at("park", k);
            co_await pool->event(take_event(c - 10));
            at("go", k);
        } else if(c < 30) {
            at("park", k);
            co_await RA::wait(*pool, (rpp::u64)(c - 20));
            at("go", k);
        } else if(c < 40) {
            at("fork", k);
            kid = job(k + NJ, child_prog(c - 30));
        } else {
            at("fire", k);
            alias[c - 40]->signal();
        }
        if(local.p.value() != k * 100 + i) err("local");
    }
    at("ends", k);
}
struct Pools : Driver {
    long base_blocks = 0, base_live = 0, base_fds = 0;
    bool closed = false;
    void setup(const Op& r) override {
        NJ = (int)r.get("nj");
        for(auto& t : task) t = new TV;
        {
            // first use of the allocators
            pool = new(pool_mem) RA::Pool<>;
            auto t = job(1, Prog{1, {1}});
            t.block();
            auto u = job(2, Prog{1, {21}});
            u.block();
            { auto x = RA::Event{}; }
            rt::drain();
            t = TV{};
            u = TV{};
            pool->~Pool();
            rt::drain();
        }
        forget_events();
        base_blocks = rt::arena_blocks();
        base_live = live();
        base_fds = rt::open_fds();
        t0 = rt::now_ns();
        for(int e = 1; e < NE; e++) {
            evfd[e] = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
            alias[e] = new(alias_mem[e]) RA::Event{RA::Event::of_sys(evfd[e], EPOLLIN)};
            given[e] = false;
        }
        thr0 = rt::n_threads();
        pool = new(pool_mem) RA::Pool<>;
        thr1 = rt::n_threads();
    }
    void close() {
        rt::on_join = [] {
            Ev("joins", 0).str("k0", "n").emit();
            rt::on_join = nullptr;
        };
        pool->~Pool();
        rt::on_join = nullptr;
        closed = true;
    }
    void finish(bool) override {
        Ev("quiet", 0).str("k0", "n").num("now", now_us()).emit();
        if(!closed) {
            // one thread of the pool waits for events, the others run jobs
            Ev("size", 0).str("k0", "n").num("n", (long)pool->n_threads()).num("thr", thr1 - thr0).emit();
            for(int e = 1; e <= nev; e++)
                if(!fired[e]) {
                    Op o{"sig", {{"e", e}}};
                    call(o, 0);
                    alias[e]->signal();
                    ret(o, 0);
                    rt::drain();
                }
            Ev("quiet", 0).str("k0", "n").num("now", now_us()).emit();
            for(int k = 1; k <= NJ; k++)
                if(owner[k]) {
                    Op o{"drop", {{"k", k}}};
                    call(o, owner[k]);
                    *task[k] = TV{};
                    ret(o, owner[k]);
                    owner[k] = 0;
                }
            Op o{"close", {}};
            call(o, 0);
            close();
            ret(o, 0);
        }
        rt::drain();
        for(int k = 1; k <= NJ; k++)
            if(owner[k]) {
                Op o{"drop", {{"k", k}}};
                call(o, owner[k]);
                *task[k] = TV{};
                ret(o, owner[k]);
            }
        int running = 0;
        for(int t = thr0; t < thr1; t++) running += !rt::is_done(t);
        for(int e = 1; e < NE; e++)
            if(!given[e]) alias[e]->~Event();
        Ev("fini", 0).str("k0", "n").num("thr", running).num("live", live() - base_live)
            .num("blk", rt::arena_blocks() - base_blocks).num("fds", rt::open_fds() - base_fds).emit();
    }
    int owner[NJMAX] = {};
    bool fired[NE] = {};
    int nev = 0;
    void step(int t, const Op& op) override {
        const std::string& n = op.name;
        int k = (int)op.get("k"), e = (int)op.get("e");
        call(op, t);
        long v = 0;
        if(n == "mk") {
            Prog p;
            for(const char* a : {"p1", "p2", "p3", "p4"})
                if(long c = op.get(a)) {
                    p.step[p.n++] = (int)c;
                    if(c > 10 && c < 20 && c - 10 > nev) nev = (int)c - 10;
                    if(c > 40) fired[c - 40] = true;
                }
            *task[k] = job(k, p);
            owner[k] = t;
        } else if(n == "blk") {
            TV x = static_cast<TV&&>(*task[k]);
            x.block();
            owner[k] = 0;
        } else if(n == "done")
            v = task[k]->done();
        else if(n == "drop") {
            *task[k] = TV{};
            owner[k] = 0;
        } else if(n == "sig") {
            fired[e] = true;
            alias[e]->signal();
        } else if(n == "close")
            close();
        else
            _Exit(96);
        ret(op, t, v);
    }
};
} // namespace
int main(int argc, char** argv) {
    Pools d;
    return drive(argc, argv, d);
}
