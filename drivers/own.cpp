// Conformance driver for Box, Opt, Variant, Function, Pair and Tuple (C06).
#include "common.h"
#include "containers.h"
#include <rpp/box.h>
#include <rpp/function.h>
#include <rpp/pair.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
using namespace rpp;
using namespace drv;

namespace {

using Flat = std::vector<long>;
using Al = TestAlloc<3>;
template<typename E> E dup(const E& e) {
    if constexpr(Clone<E>)
        return e.clone();
    else
        return E{e};
}

// ------------------------------------------------------------------ Box
template<typename E> struct BNode;
template<typename E> struct BHold {
    Box<BNode<E>, Al> c;
};
template<typename E> struct BNode {
    E e;
    BHold<E>* next = nullptr; // holds the next Box; a plain pointer because of incomplete types
    explicit BNode(int v) : e(v) {
    }
    BNode(E&& x, BHold<E>* n) : e(rpp::move(x)), next(n) {
    }
    BNode(BNode&& o) : e(rpp::move(o.e)), next(o.next) {
        o.next = nullptr;
    }
    virtual ~BNode() {
        delete next;
    }
    virtual int dyn() const {
        return 0;
    }
    BNode clone() const {
        return BNode{dup(e), next ? new BHold<E>{next->c.clone()} : nullptr};
    }
};
template<typename E> struct BoxT {
    using Node = BNode<E>;
    using Hold = BHold<E>;
    struct Derived : Node {
        E extra;
        explicit Derived(int v) : Node(v), extra(0) {
            if constexpr(counted<E>) { // the extra token is released at once: one token per node
                E gone{rpp::move(extra)};
            }
        }
        int dyn() const override {
            return 1;
        }
    };
    using C = Box<Node, Al>;
    static constexpr bool emptyable = true, chained = true;
    static C make(long k, int v, long how) {
        if(k == 1) return C{Box<Derived, Al>{v}};
        if(how % 3 == 0) return C{v};
        if(how % 3 == 1) return C{Node{v}};
        return C::make(v);
    }
    static void emplace(C& c, long k, int v, long) {
        if(k == 1)
            c = C{Box<Derived, Al>{v}};
        else
            c.emplace(v);
    }
    static void assign(C& c, long k, int v, long how) {
        c = make(k, v, how);
    }
    static void clear(C& c) {
        c = C{};
    }
    static void wrap(C& c, int v) {
        c = C{Node{E{v}, new Hold{rpp::move(c)}}};
    }
    static void adv(C& c) {
        if(c->next)
            c = rpp::move(c->next->c);
        else
            c = C{};
    }
    static void advv(C&) {
    }
    static void list(const C& c, Flat& r) {
        const C* p = &c;
        while(p->ok()) {
            r.push_back((**p).dyn());
            r.push_back((**p).e.value());
            if(!(*p)->next) break;
            p = &(*p)->next->c;
        }
    }
    static Flat get(C& c) {
        return {(*c).dyn(), (*c).e.value()};
    }
    static Flat getc(const C& c) {
        return {(*c).dyn(), (*c).e.value()};
    }
    static Flat arrow(C& c) {
        const C& k = c;
        long v = k->e.value();
        return {c->dyn(), v};
    }
    static void set(C& c, long, int v) {
        c->e = E{v};
    }
    static bool ok(const C& c) {
        return c.ok();
    }
};

// ------------------------------------------------------------------ Opt
template<typename E> struct OptT {
    struct Node {
        E e;
        Box<Opt<Node>, Al> next;
        Node(E&& x, Box<Opt<Node>, Al>&& n) : e(rpp::move(x)), next(rpp::move(n)) {
        }
        explicit Node(int v) : e(v) {
        }
        Node(Node&& o) : e(rpp::move(o.e)), next(rpp::move(o.next)) {
        }
        Node& operator=(Node&& o) {
            e = rpp::move(o.e);
            next = rpp::move(o.next);
            return *this;
        }
        ~Node() {
        }
        Node clone() const {
            Box<Opt<Node>, Al> n;
            if(next.ok()) {
                const Opt<Node>& o = *next;
                n = Box<Opt<Node>, Al>{o.ok() ? Opt<Node>{o->clone()} : Opt<Node>{}};
            }
            return Node{dup(e), rpp::move(n)};
        }
    };
    using C = Opt<Node>;
    static constexpr bool emptyable = true, chained = true;
    static C make(long, int v, long how) {
        if(how % 2) return C{v};
        return C{Node{v}};
    }
    static void emplace(C& c, long, int v, long how) {
        if(how % 2)
            c.emplace(v);
        else
            c.emplace(Node{v});
    }
    static void assign(C& c, long k, int v, long how) {
        if(how % 2)
            c = make(k, v, how / 2);
        else
            c = Node{v};
    }
    static void clear(C& c) {
        c.clear();
    }
    static void wrap(C& c, int v) {
        Box<C, Al> inner{rpp::move(c)};
        if(!inner->ok()) inner = Box<C, Al>{};
        c = Node{E{v}, rpp::move(inner)};
    }
    static void adv(C& c) {
        c = rpp::move(*c->next);
    }
    static void advv(C& c) {
        c = rpp::move(**c->next);
    }
    static void list(const C& c, Flat& r) {
        const C* p = &c;
        while(p && p->ok()) {
            r.push_back(0);
            r.push_back((**p).e.value());
            p = (*p)->next.ok() ? &*(*p)->next : nullptr;
        }
    }
    static Flat get(C& c) {
        return {0, (*c).e.value()};
    }
    static Flat getc(const C& c) {
        return {0, (*c).e.value()};
    }
    static Flat arrow(C& c) {
        const C& k = c;
        long v = k->e.value();
        return {v == c->e.value() ? 0 : 1, v};
    }
    static void set(C& c, long, int v) {
        (*c).e = E{v};
    }
    static bool ok(const C& c) {
        return c.ok();
    }
};

// ------------------------------------------------------------------ Variant
struct VHold;
struct VLink {
    TokM e;
    Box<VHold, Al> next;
    explicit VLink(int v);
    VLink(TokM&& x, Box<VHold, Al>&& n);
    VLink(VLink&& o);
    VLink& operator=(VLink&& o);
    ~VLink();
    VLink clone() const;
};
using V4 = Variant<TokM, TokC, Triv, VLink>;
struct VHold {
    V4 v;
    explicit VHold(V4&& x) : v(rpp::move(x)) {
    }
    VHold clone() const {
        return VHold{v.clone()};
    }
};
VLink::VLink(int v) : e(v) {
}
VLink::VLink(TokM&& x, Box<VHold, Al>&& n) : e(rpp::move(x)), next(rpp::move(n)) {
}
VLink::VLink(VLink&& o) = default;
VLink& VLink::operator=(VLink&& o) = default;
VLink::~VLink() = default;
VLink VLink::clone() const {
    return VLink{e.clone(), next.ok() ? Box<VHold, Al>{next->clone()} : Box<VHold, Al>{}};
}
struct VarT {
    using C = V4;
    static constexpr bool emptyable = false, chained = true;
    static C make(long k, int v, long how) {
        if(how % 2) {
            if(k == 0) return C{TokM{v}};
            if(k == 1) return C{TokC{v}};
            if(k == 2) return C{Triv{v}};
            return C{VLink{v}};
        }
        if(k == 0) return TokM{v};
        if(k == 1) return TokC{v};
        if(k == 2) return Triv{v};
        return VLink{v};
    }
    static void emplace(C& c, long k, int v, long how) {
        c = make(k, v, how);
    }
    static void assign(C& c, long k, int v, long how) {
        C t = make(k, v, how);
        c = rpp::move(t);
    }
    static void clear(C&) {
    }
    static void wrap(C& c, int v) {
        Box<VHold, Al> inner{rpp::move(c)};
        c = C{VLink{TokM{v}, rpp::move(inner)}};
    }
    static V4* inner(C& c) {
        return c.match(Overload{[](VLink& k) -> V4* { return k.next.ok() ? &k.next->v : nullptr; },
                                [](auto&) -> V4* { return nullptr; }});
    }
    static void adv(C& c) {
        c = rpp::move(*inner(c));
    }
    static void advv(C&) {
    }
    static long val(const C& c, long& k) {
        return c.match(Overload{[&](const TokM& t) { k = 0; return (long)t.value(); },
                                [&](const TokC& t) { k = 1; return (long)t.value(); },
                                [&](const Triv& t) { k = 2; return (long)t.value(); },
                                [&](const VLink& t) { k = 3; return (long)t.e.value(); }});
    }
    static void list(const C& c, Flat& r) {
        const C* p = &c;
        while(p) {
            long k = -1, v = val(*p, k);
            r.push_back(p->index() == k ? k : 100 + k);
            r.push_back(v);
            p = inner(const_cast<C&>(*p));
        }
    }
    static Flat get(C& c) {
        long k = -1;
        long v = c.match(Overload{[&](TokM& t) { k = 0; return (long)t.value(); },
                                  [&](TokC& t) { k = 1; return (long)t.value(); },
                                  [&](Triv& t) { k = 2; return (long)t.value(); },
                                  [&](VLink& t) { k = 3; return (long)t.e.value(); }});
        return {k, v};
    }
    static Flat take(C& c) {
        long k = -1;
        long v = rpp::move(c).match(Overload{
            [&](TokM&& t) { k = 0; TokM x = rpp::move(t); return (long)x.value(); },
            [&](TokC&& t) { k = 1; TokC x = rpp::move(t); return (long)x.value(); },
            [&](Triv&& t) { k = 2; return (long)t.value(); },
            [&](VLink&& t) { k = 3; VLink x = rpp::move(t); return (long)x.e.value(); }});
        return {k, v};
    }
    static Flat getc(const C& c) {
        long k = -1;
        long v = val(c, k);
        return {c.index(), v};
    }
    static Flat arrow(C& c) {
        return get(c);
    }
    static void set(C& c, long, int v) {
        (void)c.match(Overload{[&](TokM& t) { t = TokM{v}; return 0; }, [&](TokC& t) { t = TokC{v}; return 0; },
                               [&](Triv& t) { t = Triv{v}; return 0; }, [&](VLink& t) { t.e = TokM{v}; return 0; }});
    }
    static bool ok(const C&) {
        return true;
    }
};

// ten alternatives: dispatch goes through the table
template<int N> struct Num {
    char pad[N + 1] = {};
    int v = 0;
    Num() = default;
    explicit Num(int x) : v(x) {
        memset(pad, N, sizeof pad);
    }
    int value() const {
        for(char c : pad)
            if(c != N) return -9;
        return v;
    }
};
using V10 = Variant<TokM, Num<1>, Num<2>, Num<3>, Num<4>, Num<5>, Num<6>, Num<7>, Num<8>, TokC>;
template<typename A> long val_of(const A& t) {
    return (long)t.value();
}
template<Literal N, typename A> long val_of(const Named<N, A>& t) {
    const A& x = t;
    A& y = const_cast<Named<N, A>&>(t);
    return &x == &t.value && &y == &t.value && String_View{t.name} == String_View{N} ? (long)x.value() : -9;
}
template<typename A> struct Mk_Alt {
    static A mk(int v) {
        return A(v);
    }
};
template<Literal N, typename A> struct Mk_Alt<Named<N, A>> {
    static Named<N, A> mk(int v) {
        return Named<N, A>{A(v)};
    }
};
template<typename A> A mk_alt(int v) {
    return Mk_Alt<A>::mk(v);
}
template<typename... Ts> struct VarN {
    using C = Variant<Ts...>;
    static constexpr bool emptyable = false, chained = false;
    template<u64... Is> static C make_i(long k, int v, Index_Sequence<Is...>) {
        using Mk = C (*)(int);
        static constexpr Mk t[] = {+[](int x) -> C { return C{mk_alt<Choose<Is, Ts...>>(x)}; }...};
        return t[k](v);
    }
    static C make(long k, int v, long) {
        return make_i(k, v, Index_Sequence_For<Ts...>{});
    }
    static void emplace(C& c, long k, int v, long how) {
        c = make(k, v, how);
    }
    static void assign(C& c, long k, int v, long how) {
        C t = make(k, v, how);
        c = rpp::move(t);
    }
    static void clear(C&) {
    }
    static void wrap(C&, int) {
    }
    static void adv(C&) {
    }
    static void advv(C&) {
    }
    static Flat getc(const C& c) {
        long k = -1;
        long v = c.match(Overload{[&](const Ts& t) {
            k = (long)Index_Of<Ts, Ts...>;
            return val_of(t);
        }...});
        return {c.index() == k ? k : 100 + k, v};
    }
    static void list(const C& c, Flat& r) {
        for(long x : getc(c)) r.push_back(x);
    }
    static Flat get(C& c) {
        long k = -1;
        long v = c.match(Overload{[&](Ts& t) {
            k = (long)Index_Of<Ts, Ts...>;
            return val_of(t);
        }...});
        return {k, v};
    }
    static Flat take(C& c) {
        long k = -1;
        long v = rpp::move(c).match(Overload{[&](Ts&& t) {
            k = (long)Index_Of<Ts, Ts...>;
            Ts x = rpp::move(t);
            return val_of(x);
        }...});
        return {k, v};
    }
    static Flat arrow(C& c) {
        return get(c);
    }
    static void set(C& c, long, int v) {
        (void)c.match(Overload{[&](Ts& t) {
            t = mk_alt<Ts>(v);
            return 0;
        }...});
    }
    static bool ok(const C&) {
        return true;
    }
};

// ------------------------------------------------------------------ Function
using Fn = Function<long(long)>;
static Fn* fn_inner;
static long fn_kind;
struct FnT {
    using C = Fn;
    static constexpr bool emptyable = false, chained = true;
    struct Link {
        TokM e;
        Box<Fn, Al> next;
        long operator()(long a) {
            fn_kind = 3;
            fn_inner = next.ok() ? &*next : nullptr;
            return e.value() + a;
        }
    };
    struct Big {
        long a, b, c;
        int v;
        long operator()(long x) {
            fn_kind = a == 11 && b == 22 && c == 33 ? 2 : 99;
            fn_inner = nullptr;
            return v + x;
        }
    };
    static C make(long k, int v, long how) {
        if(k == 0)
            return C{[v](long a) {
                fn_kind = 0;
                fn_inner = nullptr;
                return v + a;
            }};
        if(k == 1) {
            if(how % 2)
                return C{[t = TokC{v}](long a) {
                    fn_kind = 1;
                    fn_inner = nullptr;
                    return t.value() + a;
                }};
            return C{[t = TokM{v}](long a) {
                fn_kind = 1;
                fn_inner = nullptr;
                return t.value() + a;
            }};
        }
        if(k == 2) return C{Big{11, 22, 33, v}};
        return C{Link{TokM{v}, Box<Fn, Al>{}}};
    }
    static void emplace(C& c, long k, int v, long how) {
        c = make(k, v, how);
    }
    static void assign(C& c, long k, int v, long how) {
        C t = make(k, v, how);
        c = rpp::move(t);
    }
    static void clear(C&) {
    }
    static void wrap(C& c, int v) {
        c = C{Link{TokM{v}, Box<Fn, Al>{rpp::move(c)}}};
    }
    static void adv(C& c) {
        (void)c(0);
        c = rpp::move(*fn_inner);
    }
    static void advv(C&) {
    }
    static void list(C& c, Flat& r) {
        C* p = &c;
        while(p) {
            fn_kind = -1;
            long v = (*p)(7) - 7;
            r.push_back(fn_kind);
            r.push_back(v);
            p = fn_inner;
        }
    }
    static Flat get(C& c) {
        long v = c(0);
        return {fn_kind, v};
    }
    static Flat getc(C& c) {
        return get(c);
    }
    static Flat arrow(C& c) {
        return get(c);
    }
    static Flat invoke(C& c, long a) {
        // objects pass through by value and by reference
        Function<TokM(TokM, TokM&)> g{[t = TokM{5}](TokM x, TokM& y) {
            y = TokM{x.value() + t.value()};
            return x;
        }};
        TokM y{0};
        TokM z = g(TokM{(int)a}, y);
        if(y.value() != a + 5 || z.value() != a) return {-1, -1};
        Function<TokM(TokM, TokM&)> h{rpp::move(g)};
        TokM w = h(rpp::move(z), y);
        if(w.value() != a) return {-1, -2};
        long r = c(a);
        return {fn_kind, r};
    }
    static void set(C&, long, int) {
    }
    static bool ok(const C&) {
        return true;
    }
};

// ------------------------------------------------------------------ Pair
template<typename A, typename B> struct PairT {
    using C = Pair<A, B>;
    static constexpr bool emptyable = false, chained = false;
    static C make(long, int v, long how) {
        if constexpr(Copy_Constructable<A> && Copy_Constructable<B>) {
            if(how % 4 == 1) {
                A a(v);
                B b(v + 1);
                return C{a, b};
            }
        }
        if constexpr(Copy_Constructable<A>) {
            if(how % 4 == 2) {
                A a(v);
                return C{a, B(v + 1)};
            }
        }
        if constexpr(Copy_Constructable<B>) {
            if(how % 4 == 3) {
                B b(v + 1);
                return C{A(v), b};
            }
        }
        return C{A(v), B(v + 1)};
    }
    static void emplace(C& c, long k, int v, long how) {
        c = make(k, v, how);
    }
    static void assign(C& c, long k, int v, long how) {
        C t = make(k, v, how);
        if constexpr(Copy_Constructable<A> && Copy_Constructable<B>) {
            if(how % 2) {
                c = t;
                C u{c};
                c = u;
                return;
            }
        }
        c = rpp::move(t);
    }
    static void clear(C&) {
    }
    static void wrap(C&, int) {
    }
    static void adv(C&) {
    }
    static void advv(C&) {
    }
    static Flat getc(const C& c) {
        return {0, c.template get<0>().value(), 0, c.template get<1>().value()};
    }
    static void list(const C& c, Flat& r) {
        r = {0, c.first.value(), 0, c.second.value()};
    }
    static Flat get(C& c) {
        return {0, c.template get<0>().value(), 0, c.template get<1>().value()};
    }
    static Flat arrow(C& c) {
        auto& [x, y] = c;
        return {0, x.value(), 0, y.value()};
    }
    static void set(C& c, long i, int v) {
        if(i == 0)
            c.template get<0>() = A(v);
        else
            c.second = B(v);
    }
    static bool ok(const C&) {
        return true;
    }
};

// ------------------------------------------------------------------ Tuple
template<typename X, typename Y, typename Z> struct TupleT {
    using C = Tuple<X, Y, Z>;
    static constexpr bool emptyable = false, chained = false;
    static C make(long, int v, long how) {
        if constexpr(Copy_Constructable<X>) {
            if(how % 4 == 2) {
                X a(v);
                return C{a, Tuple<Y, Z>{Y(v + 1), Z(v + 2)}};
            }
            if(how % 4 == 0) {
                X a(v);
                return C{a, Y(v + 1), Z(v + 2)};
            }
        }
        if constexpr(Copy_Constructable<Y> && Copy_Constructable<Z>) {
            if(how % 4 == 1) {
                Y b(v + 1);
                Z t(v + 2);
                return C{X(v), b, t};
            }
        }
        if(how % 4 == 3) return C{X(v), Tuple<Y, Z>{Y(v + 1), Z(v + 2)}};
        return C{X(v), Y(v + 1), Z(v + 2)};
    }
    static void emplace(C& c, long k, int v, long how) {
        c = make(k, v, how);
    }
    static void assign(C& c, long k, int v, long how) {
        C t = make(k, v, how);
        if constexpr(Trivial<X> && Trivial<Y> && Trivial<Z>) {
            if(how % 2) {
                c = t;
                C u{c};
                c = u;
                return;
            }
        }
        c = rpp::move(t);
    }
    static void clear(C&) {
    }
    static void wrap(C&, int) {
    }
    static void adv(C&) {
    }
    static void advv(C&) {
    }
    static Flat getc(const C& c) {
        return {0, c.template get<0>().value(), 0, c.template get<1>().value(), 0, c.template get<2>().value()};
    }
    static void list(const C& c, Flat& r) {
        r = getc(c);
    }
    static Flat get(C& c) {
        return {0, c.template get<0>().value(), 0, c.template get<1>().value(), 0, c.template get<2>().value()};
    }
    static Flat arrow(C& c) {
        return get(c);
    }
    static Flat invoke(C& c, long) {
        struct F {
            Flat operator()(const X& a, const Y& b, const Z& t) {
                return {a.value(), b.value(), t.value()};
            }
            Flat operator()(X&& a, Y&& b, Z&& t) {
                return {-1, -1, -1};
            }
        };
        return c.length() == 3 ? c.invoke(F{}) : Flat{};
    }
    static void set(C& c, long i, int v) {
        if(i == 0)
            c.template get<0>() = X(v);
        else if(i == 1)
            c.template get<1>() = Y(v);
        else
            c.template get<2>() = Z(v);
    }
    static bool ok(const C&) {
        return true;
    }
};

template<typename T> struct Run {
    using C = typename T::C;
    static constexpr int N = 3;
    Slot<C> c[N];
    bool mv[N] = {};
    long next_v = 100;
    long how = 0;
    bool live_known;
    void state(Ev& e) {
        std::string st = "[";
        for(int i = 0; i < N; i++) {
            if(i) st += ",";
            Flat f;
            if(c[i].on && !mv[i]) T::list(*c[i], f);
            st += std::string("{\"on\":") + (c[i].on ? "true" : "false") + ",\"c\":" + Ev::arr(f) + "}";
        }
        e.raw("st", st + "]");
        e.num("live", live_known ? g_live : -1);
        e.num("err", g_err);
    }
    void go(const Script& sc) {
        live_known = sc[0].get("counted", 1);
        how = sc[0].get("how");
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            long a = op.get("c") - 1, b = op.get("d") - 1, k = op.get("k");
            Flat r;
            auto val = [&]() {
                if(!op.has("v")) {
                    op.set("v", next_v);
                    next_v += 3;
                }
                return (int)op.get("v");
            };
            how++;
            if(n == "reset" || n == "end") {
                if(n == "end")
                    for(auto& s : c) s.off();
            } else if(n == "new") {
                if constexpr(T::emptyable) c[a].emplace();
                mv[a] = false;
            } else if(n == "mk") {
                c[a].put(T::make(k, val(), how));
                mv[a] = false;
            } else if(n == "emplace") {
                T::emplace(*c[a], k, val(), how);
                mv[a] = false;
            } else if(n == "assign") {
                T::assign(*c[a], k, val(), how);
                mv[a] = false;
            } else if(n == "clear") {
                T::clear(*c[a]);
                mv[a] = false;
            } else if(n == "wrap") {
                T::wrap(*c[a], val());
            } else if(n == "adv") {
                T::adv(*c[a]);
            } else if(n == "advv") {
                T::advv(*c[a]);
            } else if(n == "clone") {
                if constexpr(!std::is_same_v<C, Fn>) {
                    const C& x = *c[a];
                    C t = x.clone();
                    c[b].put(rpp::move(t));
                }
                mv[b] = false;
            } else if(n == "clonea") {
                if constexpr(!std::is_same_v<C, Fn>) *c[b] = static_cast<const C&>(*c[a]).clone();
                mv[b] = false;
            } else if(n == "movec") {
                c[b].put(rpp::move(*c[a]));
                mv[b] = false;
                mv[a] = !is_box;
            } else if(n == "movea") {
                *c[b] = rpp::move(*c[a]);
                if(a != b) {
                    mv[b] = false;
                    mv[a] = !is_box;
                }
            } else if(n == "get") {
                r = T::get(*c[a]);
            } else if(n == "getc") {
                r = T::getc(*c[a]);
            } else if(n == "arrow") {
                r = T::arrow(*c[a]);
            } else if(n == "invoke") {
                if constexpr(requires { T::invoke(*c[a], 0L); }) r = T::invoke(*c[a], op.get("a"));
            } else if(n == "set") {
                T::set(*c[a], op.get("i"), val());
            } else if(n == "valor") {
                if constexpr(requires { (*c[a]).value_or(**c[a]); }) {
                    typename std::remove_reference<decltype(**c[a])>::type other(-5);
                    r = {(long)(*c[a]).value_or(other).e.value()};
                }
            } else if(n == "take") {
                if constexpr(requires { T::take(*c[a]); }) r = T::take(*c[a]);
                mv[a] = true;
            } else if(n == "ok") {
                r = {T::ok(*c[a])};
            } else if(n == "drop") {
                c[a].off();
                mv[a] = false;
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            Ev h;
            h.head(op, "ok");
            h.nums("r", r);
            state(h);
            if(n == "end") h.num("blocks", g_blocks);
            emit(h);
        }
    }
    static constexpr bool is_box = T::emptyable && requires(C& x) { T::advv(x); } && !requires(C& x) { x.clear(); };
};

template<template<typename> class R> void by_kind(const Script& sc) {
    switch(sc[0].get("kind")) {
    case 0: (new Run<R<Triv>>)->go(sc); break;
    case 1: (new Run<R<TokM>>)->go(sc); break;
    case 2: (new Run<R<TokC>>)->go(sc); break;
    case 3: (new Run<R<TrivM>>)->go(sc); break;
    default: _exit(98);
    }
}

} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        switch(sc[0].get("ty")) {
        case 1: by_kind<BoxT>(sc); break;
        case 2: by_kind<OptT>(sc); break;
        case 3: (new Run<VarT>)->go(sc); break;
        case 4: (new Run<VarN<TokM, Num<1>, Num<2>, Num<3>, Num<4>, Num<5>, Num<6>, Num<7>, Num<8>, TokC>>)->go(sc); break;
        case 5: (new Run<VarN<Triv, TrivM, Num<30>>>)->go(sc); break;
        case 6: (new Run<FnT>)->go(sc); break;
        case 7:
            switch(sc[0].get("kind")) {
            case 0: (new Run<PairT<Triv, TrivM>>)->go(sc); break;
            case 1: (new Run<PairT<TokM, TokC>>)->go(sc); break;
            case 2: (new Run<PairT<TokC, TokC>>)->go(sc); break;
            case 3: (new Run<PairT<TokC, TokM>>)->go(sc); break;
            }
            break;
        case 8:
            switch(sc[0].get("kind")) {
            case 0: (new Run<TupleT<TokM, TokC, Triv>>)->go(sc); break;
            case 1: (new Run<TupleT<TokC, Triv, TokM>>)->go(sc); break;
            case 2: (new Run<TupleT<Triv, Triv, Pod>>)->go(sc); break;
            }
            break;
        case 11: (new Run<VarN<Named<"a", TokC>, Named<"b", TokC>, TokC, Named<"a", Triv>>>)->go(sc); break;
        case 9: (new Run<VarN<TokM, Num<1>, Num<2>, Num<3>, Num<4>, Num<5>, Num<6>, TokC>>)->go(sc); break;
        case 10: (new Run<VarN<TokC, Num<1>, Num<2>, Num<3>, Num<4>, Num<5>, Num<6>, Num<7>, TokM>>)->go(sc); break;
        default: _exit(98);
        }
    });
}
