// Concurrent driver for Async::Task (C13). Coroutines wait at gates that program threads open.
#include <new>
#include <rpp/base.h>
#include <rpp/async.h>
#include "cc.h"
using namespace cc;
namespace RT = rpp::Thread;
namespace RA = rpp::Async;
namespace {
constexpr int NT = 8, NV = 3, NG = 64, SUSP = 99;
using TP = RA::Task<Pay>;
using TV = RA::Task<void>;

struct Gate {
    RT::Atomic word; // 0 nobody, 1 open, otherwise the waiting coroutine
    void open() {
        rpp::i64 old = word.exchange(1);
        if(old > 1) std::coroutine_handle<>::from_address(reinterpret_cast<void*>(old)).resume();
    }
    bool await_ready() {
        return word.load() == 1;
    }
    bool await_suspend(std::coroutine_handle<> h) {
        return word.compare_and_swap(0, reinterpret_cast<rpp::i64>(h.address())) == 0;
    }
    void await_resume() {
    }
};
struct Var {
    TP p;
    TV v;
    bool is_void = false;
    bool there = false;
};
struct World {
    Gate gate[NG];
    Var var[NT][NV];
};
World* w = nullptr;
void passed(int k, int g) {
    note("passed", 0, k, g);
}
TP leaf(int k, int g1, int g2, int x) {
    Pay local{x};
    if(g1 == SUSP) {
        co_await RA::Suspend{};
        passed(k, g1);
    } else if(g1) {
        co_await w->gate[g1];
        passed(k, g1);
    }
    if(g2) {
        co_await w->gate[g2];
        passed(k, g2);
    }
    Pay result{local.value()};
    note("ends", 0, k, result.value());
    if(k % 2) {
        const Pay& r = result; // return_value(const R&)
        co_return r;
    }
    co_return static_cast<Pay&&>(result);
}
TV leafv(int k, int g1, int g2) {
    Pay local{k};
    if(g1) {
        co_await w->gate[g1];
        passed(k, g1);
    }
    if(g2) {
        co_await w->gate[g2];
        passed(k, g2);
    }
    if(local.value() != k) err("local");
    note("ends", 0, k, 0);
}
TP outer(int k, Var c, int g1, int g2, int x) {
    Pay local{x};
    int v = 0;
    if(c.is_void)
        co_await c.v;
    else {
        Pay r = co_await c.p;
        v = r.value();
    }
    note("awaited", 0, k, v);
    if(g1) {
        co_await w->gate[g1];
        passed(k, g1);
    }
    if(g2) {
        co_await w->gate[g2];
        passed(k, g2);
    }
    v += local.value();
    note("ends", 0, k, v);
    co_return Pay{v};
}
TP outer2(int k, Var c, Var d, int x) {
    Pay local{x};
    int v = 0;
    for(int i = 0; i < 2; i++) {
        Var& u = i ? d : c;
        int r = 0;
        if(u.is_void)
            co_await u.v;
        else {
            Pay p = co_await u.p;
            r = p.value();
        }
        note("awaited", 0, k, r);
        v += r;
    }
    v += local.value();
    note("ends", 0, k, v);
    co_return Pay{v};
}
TP inner_then(int k, Pay p, int g1, int g2) {
    int v = p.value();
    note("awaited", 0, k, v);
    if(g1) {
        co_await w->gate[g1];
        passed(k, g1);
    }
    if(g2) {
        co_await w->gate[g2];
        passed(k, g2);
    }
    co_return Pay{v};
}
TP thenner(int k, Var c, int g1, int g2, int x) {
    Pay local{x};
    Pay r = co_await c.p.then([k, g1, g2](Pay p) { return inner_then(k, static_cast<Pay&&>(p), g1, g2); });
    int v = r.value() + local.value();
    note("ends", 0, k, v);
    co_return Pay{v};
}
struct Tasks : Driver {
    long base_blocks = 0, base_live = 0;
    void setup(const Op&) override {
        w = new World;
        { auto t = leaf(0, 0, 0, 1); } // first use of the allocator
        base_blocks = rt::arena_blocks();
        base_live = live();
        forget_events();
    }
    void finish(bool) override {
        note("quiet", 0);
        for(int t = 1; t < NT; t++)
            for(int j = 0; j < NV; j++)
                if(w->var[t][j].there && at_op[t] == 0)
                    note("poll", t, j + 1, w->var[t][j].is_void ? w->var[t][j].v.done() : w->var[t][j].p.done());
        for(int g = 1; g < NG; g++)
            if(w->gate[g].word.load() != 1) {
                Op o{"open", {{"g", g}}};
                if(w->gate[g].word.load() == 0) continue;
                call(o, 0);
                w->gate[g].open();
                ret(o, 0);
            }
        rt::drain();
        for(int t = 0; t < NT; t++)
            for(int j = 0; j < NV; j++) {
                Var& v = w->var[t][j];
                if(v.there && !v.is_void && susp[t][j]) {
                    // never resumed: let it run to its end, which the specification does not follow
                    continue;
                }
                v.p = TP{};
                v.v = TV{};
            }
        rt::drain();
        bool parked = false;
        for(auto& a : susp)
            for(bool b : a) parked |= b;
        if(!parked) note("fini", 0, live() - base_live, rt::arena_blocks() - base_blocks);
    }
    bool susp[NT][NV] = {};
    void step(int t, const Op& op) override {
        const std::string& n = op.name;
        int k = (int)op.get("k"), j = (int)op.get("j", 1) - 1, i = (int)op.get("i", 1) - 1, g = (int)op.get("g");
        int g1 = (int)op.get("g1"), g2 = (int)op.get("g2"), x = (int)op.get("x");
        Var* a = w->var[t];
        call(op, t);
        long v = 0;
        if(n == "mk") {
            a[j].p = leaf(k, g1, g2, x);
            a[j].is_void = false;
            a[j].there = true;
            susp[t][j] = g1 == SUSP;
        } else if(n == "mkv") {
            a[j].v = leafv(k, g1, g2);
            a[j].is_void = a[j].there = true;
        } else if(n == "aw") {
            Var c = static_cast<Var&&>(a[j]);
            a[j].p = outer(k, static_cast<Var&&>(c), g1, g2, x);
            a[j].is_void = false;
            a[j].there = true;
        } else if(n == "aw2") {
            Var c = static_cast<Var&&>(a[j]), d = static_cast<Var&&>(a[i]);
            a[i].there = false;
            a[j].p = outer2(k, static_cast<Var&&>(c), static_cast<Var&&>(d), x);
            a[j].is_void = false;
            a[j].there = true;
        } else if(n == "then") {
            Var c = static_cast<Var&&>(a[j]);
            a[j].p = thenner(k, static_cast<Var&&>(c), g1, g2, x);
            a[j].is_void = false;
            a[j].there = true;
        } else if(n == "open") {
            w->gate[g].open();
        } else if(n == "res") {
            susp[t][j] = false;
            a[j].p.resume();
        } else if(n == "blk") {
            if(a[j].is_void) {
                TV u = static_cast<TV&&>(a[j].v);
                u.block();
            } else {
                TP u = static_cast<TP&&>(a[j].p);
                v = u.block().value();
            }
            a[j].there = false;
        } else if(n == "done")
            v = a[j].is_void ? a[j].v.done() : a[j].p.done();
        else if(n == "ok")
            v = (int)a[j].v.ok() + (int)a[j].p.ok();
        else if(n == "drop") {
            if(a[j].is_void)
                a[j].v = TV{};
            else
                a[j].p = TP{};
            a[j].there = false;
        } else if(n == "mv") {
            // an assignment drops what the target holds
            if(a[i].there && a[i].is_void != a[j].is_void) {
                a[i].v = TV{};
                a[i].p = TP{};
            }
            if(a[j].is_void)
                a[i].v = static_cast<TV&&>(a[j].v);
            else
                a[i].p = static_cast<TP&&>(a[j].p);
            a[i].is_void = a[j].is_void;
            a[i].there = a[j].there;
            a[j].there = false;
            susp[t][i] = susp[t][j];
            susp[t][j] = false;
        } else
            _Exit(96);
        ret(op, t, v);
    }
};
} // namespace
int main(int argc, char** argv) {
    Tasks d;
    return drive(argc, argv, d);
}
