// Conformance driver for Rc and Arc (C07), sequential part.
#include "common.h"
#include "containers.h"
#include <rpp/rc.h>
using namespace drv;
namespace {
constexpr int NC = 3, NO = 90; // the specification bounds the number of objects
bool used[NO + 1];
std::vector<long> died;
int take_id() {
    for(int i = 1; i <= NO; i++)
        if(!used[i]) {
            used[i] = true;
            return i;
        }
    _exit(95);
}
template<template<typename, rpp::Scalar_Allocator> class R, typename A, typename Pad> struct Node {
    Pad pad;
    TokM e;
    int id;
    R<Node, A> next;
    explicit Node(int v) : e(v), id(take_id()) {
    }
    Node(int v, R<Node, A>&& n) : e(v), id(take_id()), next(static_cast<R<Node, A>&&>(n)) {
    }
    Node(Node&& o) : e(static_cast<TokM&&>(o.e)), id(o.id), next(static_cast<R<Node, A>&&>(o.next)) {
        o.id = 0;
    }
    ~Node() {
        if(id) {
            if(!used[id]) tok_err("object destroyed twice");
            (void)e.value();
            used[id] = false;
            died.push_back(id);
        }
        id = 0;
    }
};
template<template<typename, rpp::Scalar_Allocator> class R, typename A, typename Pad, bool Counted> struct Run {
    using N = Node<R, A, Pad>;
    using C = R<N, A>;
    using X = C&&;
    Slot<C> s[NC];
    C make(int v, long how) {
        switch(how % 3) {
        case 0: return C{v};
        case 1: return C::make(v);
        default: return C{N{v}};
        }
    }
    void store(int c, C&& x) {
        if(s[c].on)
            *s[c] = static_cast<X>(x);
        else
            s[c].put(static_cast<X>(x));
    }
    void observe(Ev& ev) {
        std::vector<long> live, slot, refs;
        std::string chain = "[";
        for(int i = 1; i <= NO; i++)
            if(used[i]) live.push_back(i);
        for(int c = 0; c < NC; c++) {
            const C* p = s[c].on ? s[c].p : nullptr;
            slot.push_back(!p ? -1 : p->ok() ? (*p)->id : 0);
            refs.push_back(p ? (long)p->references() : 0);
            std::vector<long> vs;
            while(p && p->ok() && vs.size() < 20) {
                vs.push_back((**p).e.value());
                p = &(*p)->next;
            }
            chain += (c ? "," : "") + Ev::arr(vs);
        }
        ev.nums("live", live);
        ev.nums("slot", slot);
        ev.nums("refs", refs);
        ev.raw("chain", chain + "]");
        ev.num("blocks", Counted ? g_blocks : -1);
        ev.num("err", g_err);
    }
    void go(const Script& sc) {
        long mode = sc[0].get("how");
        for(size_t i = 0; i < sc.size(); i++) {
            const Op& op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            int c = (int)op.get("c", 1) - 1, d = (int)op.get("d", 1) - 1, v = (int)op.get("v");
            long how = mode + (long)i;
            std::vector<long> r;
            died.clear();
            if(n == "new")
                store(c, C{});
            else if(n == "mk") {
                if(!s[c].on && how % 2)
                    s[c].emplace(v);
                else
                    store(c, make(v, how));
            } else if(n == "wrap") {
                if(how % 2)
                    *s[c] = C{v, static_cast<X>(*s[c])};
                else
                    *s[c] = C{N{v, static_cast<X>(*s[c])}};
            } else if(n == "adv")
                *s[c] = static_cast<X>((*s[c])->next);
            else if(n == "peek")
                *s[c] = (*s[c])->next.dup();
            else if(n == "cut") {
                if(how % 2)
                    (*s[c])->next.clear();
                else
                    (*s[c])->next = C{};
            } else if(n == "set")
                (*s[c])->e = TokM{v};
            else if(n == "dup") {
                const C& k = *s[c];
                store(d, k.dup());
            } else if(n == "from")
                store(d, C::from_this(&**s[c]));
            else if(n == "movec")
                s[d].on ? (void)(s[d].off(), s[d].put(static_cast<X>(*s[c]))) : s[d].put(static_cast<X>(*s[c]));
            else if(n == "movea")
                *s[d] = static_cast<X>(*s[c]);
            else if(n == "link")
                (*s[c])->next = s[d]->dup();
            else if(n == "clear")
                s[c]->clear();
            else if(n == "drop")
                s[c].off();
            else if(n == "refs")
                r.push_back((long)s[c]->references());
            else if(n == "ok")
                r.push_back(s[c]->ok());
            else if(n == "get")
                r.push_back((**s[c]).e.value());
            else if(n == "getc") {
                const C& k = *s[c];
                r.push_back(how % 2 ? (*k).e.value() : k->e.value());
            } else if(n == "arrow")
                r.push_back((*s[c])->e.value());
            else if(n == "end")
                for(auto& x : s) x.off();
            Ev ev;
            ev.head(op, "ok");
            ev.nums("died", died);
            ev.nums("r", r);
            if(n == "end") ev.num("net", g_live);
            observe(ev);
            emit(ev);
        }
    }
};
struct P0 {};
struct P1 {
    char c[37] = {};
};
template<typename P> void pick(const Script& sc) {
    switch(sc[0].get("ty")) {
    case 1: Run<rpp::Rc, TestAlloc<7>, P, true>{}.go(sc); break;
    case 2: Run<rpp::Arc, TestAlloc<8>, P, true>{}.go(sc); break;
    case 3: Run<rpp::Rc, rpp::Mdefault, P, false>{}.go(sc); break;
    case 4: Run<rpp::Arc, rpp::Mdefault, P, false>{}.go(sc); break;
    case 5: Run<rpp::Rc, rpp::Mpool, P, false>{}.go(sc); break;
    default: Run<rpp::Arc, rpp::Mpool, P, false>{}.go(sc); break;
    }
}
} // namespace
int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        if(sc[0].get("pad"))
            pick<P1>(sc);
        else
            pick<P0>(sc);
    });
}
