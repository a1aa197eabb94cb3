// Concurrent driver for flags, promises, futures, spawn and Thread objects (C12).
#include <new>
#include <rpp/base.h>
#include <rpp/thread.h>
#include "cc.h"
using namespace cc;
namespace RT = rpp::Thread;
namespace {
constexpr int NP = 4, NV = 3, NF = 3, NT = 10, NJ = 64;
struct Cell {
    Pay p;
};
struct FutVar {
    RT::Future<Pay> p;
    RT::Future<void> v;
    int job = 0;
};
struct World {
    RT::Flag flag[NF];
    Pay fcell[NF];  // written before the flag is signalled
    Pay pcell[NP];  // written before the promise is filled
    Pay jcell[NJ];  // written by the job
    // promise 1 holds a Pay, 2 an int, 3 and 4 nothing
    RT::Future<Pay> pp[NT];
    RT::Future<int> pi[NT];
    RT::Future<void> pv[NT][2];
    FutVar fut[NT][NV];
    RT::Thread<> thr[NT][NV];
};
World* w = nullptr;
int body(int k, Pay&& arg, int x2) {
    note("run", 0, k, arg.value() == x2 ? x2 : -7);
    rt::yield();
    w->jcell[k].set(x2);
    rt::yield();
    Pay inner{static_cast<Pay&&>(arg)};
    note("end", 0, k, 0);
    return inner.value();
}
struct Fut : Driver {
    long base_blocks = 0, base_live = 0;
    int fcount[NF] = {};
    void setup(const Op&) override {
        w = new World;
        { auto warm = RT::Future<Pay>::make(); }
        base_blocks = rt::arena_blocks();
        base_live = live();
        auto a = RT::Future<Pay>::make();
        auto b = RT::Future<int>::make();
        auto c = RT::Future<void>::make();
        auto d = RT::Future<void>::make();
        for(int t = 0; t < NT; t++) {
            w->pp[t] = a.dup();
            w->pi[t] = b.dup();
            w->pv[t][0] = c.dup();
            w->pv[t][1] = d.dup();
        }
    }
    void finish(bool stuck) override {
        if(stuck) return;
        for(int t = 0; t < NT; t++) {
            w->pp[t].clear();
            w->pi[t].clear();
            w->pv[t][0].clear();
            w->pv[t][1].clear();
            for(auto& f : w->fut[t]) {
                f.p.clear();
                f.v.clear();
            }
            for(auto& x : w->thr[t]) x = RT::Thread<>{};
        }
        note("held", 0, rt::unreleased());
        note("fini", 0, live() - base_live, rt::arena_blocks() - base_blocks);
    }
    long value_of(Pay p, int k, int expect_cell) {
        long v = p.value();
        return w->jcell[k].value() == expect_cell ? v : -5;
    }
    void step(int t, const Op& op) override {
        const std::string& n = op.name;
        int p = (int)op.get("p", 1) - 1, k = (int)op.get("k"), j = (int)op.get("j", 1) - 1, i = (int)op.get("i", 1) - 1;
        int f = (int)op.get("f", 1) - 1, x = (int)op.get("x");
        call(op, t);
        long v = 0;
        if(n == "fsig") {
            w->flag[f].signal();
        } else if(n == "fblk")
            w->flag[f].block();
        else if(n == "frdy")
            v = w->flag[f].ready();
        else if(n == "fill") {
            w->pcell[p].set(x);
            if(p == 0)
                w->pp[t]->fill(Pay{x});
            else if(p == 1)
                w->pi[t]->fill(static_cast<int&&>(x));
            else
                w->pv[t][p - 2]->fill();
        } else if(n == "pblk") {
            if(p == 0)
                v = w->pp[t]->block().value();
            else if(p == 1)
                v = w->pi[t]->block();
            else
                w->pv[t][p - 2]->block();
            int c = w->pcell[p].value();
            if(p < 2 ? c != v : false) v = -5;
            if(p >= 2) v = c;
        } else if(n == "prdy") {
            v = p == 0 ? w->pp[t]->ready() : p == 1 ? w->pi[t]->ready() : w->pv[t][p - 2]->ready();
            if(v) w->pcell[p].value();
        } else if(n == "pdrop") {
            if(p == 0)
                w->pp[t].clear();
            else if(p == 1)
                w->pi[t] = RT::Future<int>{};
            else
                w->pv[t][p - 2].clear();
        } else if(n == "pdup") {
            if(p == 0) {
                auto d = w->pp[t].dup();
                rt::yield();
                auto e = static_cast<RT::Future<Pay>&&>(d);
            } else if(p == 1)
                auto d = w->pi[t].dup();
            else {
                auto d = w->pv[t][p - 2].dup();
                w->pv[t][p - 2] = static_cast<RT::Future<void>&&>(d);
            }
        } else if(n == "spawn") {
            w->fut[t][j].p = RT::spawn([k](Pay&& a, int y) { return Pay{body(k, static_cast<Pay&&>(a), y) + 100}; }, Pay{x}, (int)x);
            w->fut[t][j].job = k;
        } else if(n == "spawnv") {
            Pay captured{x};
            w->fut[t][j].v = RT::spawn([k, c = static_cast<Pay&&>(captured)](int y) mutable { body(k, static_cast<Pay&&>(c), y); }, (int)x);
            w->fut[t][j].job = k;
        } else if(n == "tmake") {
            Pay captured{x};
            w->thr[t][j] = RT::Thread<>{[k, x, c = static_cast<Pay&&>(captured)]() mutable { body(k, static_cast<Pay&&>(c), x); }};
        } else if(n == "jblk") {
            FutVar& u = w->fut[t][j];
            if(u.p.ok()) {
                v = u.p->block().value();
                if(w->jcell[u.job].value() != v - 100) v = -5;
            } else {
                u.v->block();
                v = w->jcell[u.job].value() + 100;
            }
        } else if(n == "jrdy") {
            FutVar& u = w->fut[t][j];
            v = u.p.ok() ? u.p->ready() : u.v->ready();
            if(v) w->jcell[u.job].value();
        } else if(n == "jdrop") {
            w->fut[t][j].p.clear();
            w->fut[t][j].v.clear();
        } else if(n == "jdup") {
            w->fut[t][i].p = w->fut[t][j].p.dup();
            w->fut[t][i].v = w->fut[t][j].v.dup();
            w->fut[t][i].job = w->fut[t][j].job;
        } else if(n == "jmove") {
            w->fut[t][i].p = static_cast<RT::Future<Pay>&&>(w->fut[t][j].p);
            w->fut[t][i].v = static_cast<RT::Future<void>&&>(w->fut[t][j].v);
            w->fut[t][i].job = w->fut[t][j].job;
        } else if(n == "tjoin") {
            w->thr[t][j].join();
        } else if(n == "tdetach")
            w->thr[t][j].detach();
        else if(n == "tdrop") {
            w->thr[t][j].~Thread();
            new(&w->thr[t][j]) RT::Thread<>{};
        } else if(n == "tmove") {
            if(x % 2) {
                // through a move construction
                RT::Thread<> tmp{static_cast<RT::Thread<>&&>(w->thr[t][j])};
                w->thr[t][i] = static_cast<RT::Thread<>&&>(tmp);
            } else
                w->thr[t][i] = static_cast<RT::Thread<>&&>(w->thr[t][j]);
        } else
            _Exit(96);
        ret(op, t, v);
    }
};
} // namespace
int main(int argc, char** argv) {
    Fut d;
    return drive(argc, argv, d);
}
