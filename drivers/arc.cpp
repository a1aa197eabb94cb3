// Concurrent driver for Arc (C07).
#include <new>
#include <rpp/base.h>
#include <rpp/rc.h>
#include "cc.h"
using namespace cc;
namespace {
constexpr int NTMAX = 6, NVMAX = 4;
int as_thread = -1; // main acts for this thread
int me() {
    return as_thread >= 0 ? as_thread : rt::self();
}
int thr_base = 0;
template<typename A> struct Node {
    Pay p;
    int id;
    rpp::Arc<Node, A> next;
    Node(int id, rpp::Arc<Node, A>&& n) : p(id * 10), id(id), next(static_cast<rpp::Arc<Node, A>&&>(n)) {
    }
    ~Node() {
        note("die", as_thread >= 0 ? as_thread : rt::self() - thr_base, id, p.value());
        rt::yield();
    }
};
template<typename A> struct Arcs : Driver {
    using N = Node<A>;
    using C = rpp::Arc<N, A>;
    using X = C&&;
    struct World {
        C var[NTMAX][NVMAX];
        rpp::Thread::Mutex mu[NTMAX];
        C box[NTMAX][64];
        int head[NTMAX] = {}, tail[NTMAX] = {};
    };
    World* w = nullptr;
    int nt = 0, nv = 0;
    long base_blocks = 0, base_live = 0;
    bool pooled = false;
    void setup(const Op& r) override {
        nt = (int)r.get("nt");
        nv = (int)r.get("nv");
        pooled = r.get("ty");
        long k = r.get("no"), st = r.get("step"), chain = r.get("chain");
        w = new World;
        as_thread = 0;
        { C x = C::make(1, C{}); }
        forget_events();
        base_blocks = rt::arena_blocks();
        base_live = live();
        C all[16];
        for(long o = k; o >= 1; o--) all[o] = C::make((int)o, chain && o < k ? all[o + 1].dup() : C{});
        for(int t = 1; t <= nt; t++)
            for(int j = 1; j <= nv; j++)
                if(long o = !k ? 0 : st == 9 ? j == 1 : (t * st + j) % (k + 1)) w->var[t][j - 1] = all[o].dup();
        // objects that got no reference go before the recording starts
        for(auto& a : all) a.clear();
        forget_events();
        as_thread = -1;
        thr_base = rt::n_threads() - 1;
    }
    void perform(int t, const Op& op) {
        const std::string& n = op.name;
        C* v = w->var[t];
        int j = (int)op.get("j", 1) - 1, i = (int)op.get("i", 1) - 1, u = (int)op.get("u");
        if((n == "from" || n == "get" || n == "cow" || n == "next") && !v[j].ok()) return;
        call(op, t);
        long r = 0;
        if(n == "mk") {
            C nx;
            if(i >= 0) nx = static_cast<X>(v[i]);
            if(op.get("k") % 2)
                v[j] = C{(int)op.get("k"), static_cast<X>(nx)};
            else
                v[j] = C::make((int)op.get("k"), static_cast<X>(nx));
        } else if(n == "dup")
            v[i] = v[j].dup();
        else if(n == "from")
            v[i] = C::from_this(&*v[j]);
        else if(n == "next")
            v[i] = v[j]->next.dup();
        else if(n == "mv")
            v[i] = static_cast<X>(v[j]);
        else if(n == "clr") {
            if((t + j) % 2)
                v[j].clear();
            else {
                v[j].~C();
                new(&v[j]) C{};
            }
        } else if(n == "refs")
            r = (long)v[j].references();
        else if(n == "get")
            r = v[j]->p.value();
        else if(n == "cow") {
            if(v[j].references() == 1) {
                v[j]->p.set(v[j]->p.value() + 1);
                r = 1;
            }
        } else if(n == "give") {
            rpp::Thread::Lock lk(w->mu[u]);
            w->box[u][w->tail[u]++ % 64] = static_cast<X>(v[j]);
        } else if(n == "take") {
            C x;
            {
                rpp::Thread::Lock lk(w->mu[t]);
                if(w->head[t] < w->tail[t]) {
                    x = static_cast<X>(w->box[t][w->head[t]++ % 64]);
                    r = 1;
                }
            }
            if(r) v[j] = static_cast<X>(x);
        } else
            _Exit(96);
        ret(op, t, r);
    }
    void step(int t, const Op& op) override {
        perform(t, op);
    }
    void finish(bool) override {
        note("quiet", 0);
        for(int t = 1; t <= nt; t++) {
            as_thread = t;
            while(w->head[t] < w->tail[t]) perform(t, Op{"take", {{"j", 1}}});
            for(int j = 1; j <= nv; j++) perform(t, Op{"clr", {{"j", j}}});
        }
        note("fini", 0, live() - base_live, pooled ? 0 : rt::arena_blocks() - base_blocks);
    }
};
struct Any : Driver {
    Driver* d = nullptr;
    void setup(const Op& r) override {
        if(r.get("ty"))
            d = new Arcs<rpp::Mpool>;
        else
            d = new Arcs<rpp::Mallocator<"Arcs", false>>;
        d->setup(r);
    }
    void step(int t, const Op& op) override {
        d->step(t, op);
    }
    void finish(bool s) override {
        d->finish(s);
    }
};
} // namespace
int main(int argc, char** argv) {
    Any d;
    return drive(argc, argv, d);
}
