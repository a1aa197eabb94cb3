// Concurrent driver for Mpool (C10).
#include <new>
#include <rpp/base.h>
#include <rpp/thread.h>
#include "cc.h"
using namespace cc;
namespace {
constexpr int NTMAX = 6, NVMAX = 4, NADDR = 256;
struct Common {
    int ty;
    Common* kid = nullptr;
    explicit Common(int ty) : ty(ty) {
    }
};
struct P1 : Common {
    Pay p;
    explicit P1(int v) : Common(1), p(v) {
    }
};
struct P2 : Common {
    Pay p;
    char fill[24] = {};
    explicit P2(int v) : Common(2), p(v) {
    }
};
struct P3 : Common {
    Pay p;
    explicit P3(int v) : Common(3), p(v) {
        kid = rpp::Mpool::make<P1>(v);
    }
    ~P3() {
        rpp::Mpool::destroy((P1*)kid);
    }
};
static_assert(sizeof(P1) == sizeof(P3) && sizeof(P2) != sizeof(P1));
// block numbers, in the order in which they are first seen
struct Seen {
    void* a[NADDR];
    int n;
};
Seen seen[2];
__attribute__((no_sanitize("thread"), noinline)) int block(int c, void* p) {
    for(int i = 0; i < seen[c].n; i++)
        if(seen[c].a[i] == p) return i + 1;
    if(seen[c].n == NADDR) _Exit(95);
    seen[c].a[seen[c].n++] = p;
    return seen[c].n;
}
struct Pools : Driver {
    struct World {
        Common* var[NTMAX][NVMAX] = {};
        rpp::Thread::Mutex mu[NTMAX];
        Common* box[NTMAX][64] = {};
        int head[NTMAX] = {}, tail[NTMAX] = {};
    };
    World* w = nullptr;
    int nt = 0, nv = 0;
    long base_live = 0;
    void setup(const Op& r) override {
        nt = (int)r.get("nt");
        nv = (int)r.get("nv");
        w = new World;
        base_live = live();
    }
    static Pay& pay(Common* c) {
        return c->ty == 1 ? ((P1*)c)->p : c->ty == 2 ? ((P2*)c)->p : ((P3*)c)->p;
    }
    void perform(int t, const Op& op) {
        const std::string& n = op.name;
        Common** v = w->var[t];
        int j = (int)op.get("j", 1) - 1, u = (int)op.get("u");
        bool has = v[j];
        if((n == "mk" || n == "take") == has) return;
        call(op, t);
        long r = 0;
        if(n == "mk") {
            int ty = (int)op.get("ty"), x = (int)op.get("v");
            Common* c = ty == 1 ? (Common*)rpp::Mpool::make<P1>(x) : ty == 2 ? (Common*)rpp::Mpool::make<P2>(x) : rpp::Mpool::make<P3>(x);
            Common* kid = c->kid;
            r = block(ty == 2, c);
            if(ty == 3) r += 1000 * block(0, kid);
            ret(op, t, r);
            v[j] = c;
            return;
        } else if(n == "rm") {
            switch(v[j]->ty) {
            case 1: rpp::Mpool::destroy((P1*)v[j]); break;
            case 2: rpp::Mpool::destroy((P2*)v[j]); break;
            default: rpp::Mpool::destroy((P3*)v[j]); break;
            }
            v[j] = nullptr;
        } else if(n == "get") {
            r = pay(v[j]).value();
            if(v[j]->kid && pay(v[j]->kid).value() != r) r = -5;
        } else if(n == "set") {
            pay(v[j]).set((int)op.get("v"));
            if(v[j]->kid) pay(v[j]->kid).set((int)op.get("v"));
        } else if(n == "give") {
            rpp::Thread::Lock lk(w->mu[u]);
            w->box[u][w->tail[u]++ % 64] = v[j];
            v[j] = nullptr;
        } else if(n == "take") {
            rpp::Thread::Lock lk(w->mu[t]);
            if(w->head[t] < w->tail[t]) {
                v[j] = w->box[t][w->head[t]++ % 64];
                r = 1;
            }
        } else
            _Exit(96);
        ret(op, t, r);
    }
    void step(int t, const Op& op) override {
        perform(t, op);
    }
    void finish(bool) override {
        note("quiet", 0);
        for(int t = 1; t <= nt; t++) {
            for(int j = 1; j <= nv; j++) perform(t, Op{"get", {{"j", j}}}), perform(t, Op{"rm", {{"j", j}}});
            while(w->head[t] < w->tail[t]) {
                perform(t, Op{"take", {{"j", 1}}});
                perform(t, Op{"get", {{"j", 1}}});
                perform(t, Op{"rm", {{"j", 1}}});
            }
        }
        note("fini", 0, live() - base_live, 0);
    }
};
} // namespace
int main(int argc, char** argv) {
    Pools d;
    return drive(argc, argv, d);
}
