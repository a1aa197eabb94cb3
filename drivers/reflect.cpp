// Conformance driver for reflection, type lists, literals and floating point limits (C26).
#include "common.h"
using namespace rpp;
using namespace drv;

enum class Colour : u8 { red, green = 3, blue = 200 };
enum class Wide : i64 { lo = -5000000000l, zero = 0, hi = 5000000000l, one = 1 };
enum class Lone : u16 { only = 7 };
struct One { i32 x; };
struct Mix { u8 a; u64 b; i16 c; f32 d; bool e; char f; };
struct Part { i32 a; i8 b; i64 c; u16 d; };
struct Nest { u8 tag; Mix in; One one; };
struct Arrs { i8 h; i32 v[3]; u16 t; };
struct Bare { u32 hidden; };
template<typename T> struct Tmpl { T first; u32 second; };
struct Ptrs { bool b; i32* p; const i32* q; Colour e; Wide w; f64 z; };
template<typename A, typename B> struct Two { A a; B b; };
struct Consty { i32 a; const i16 k; u8 z; };
struct Deep { bool f; Nest n; Arrs w; };
struct Many { i8 a; i16 b; i32 c; i64 d; u8 e; u16 f; u32 g; u64 h; f64 i; f32 j; char k; bool l; };
struct Big { u8 a; u8 p1[61]; i32 b; u8 p2[250]; i16 c; u8 v[3]; u8 p3[70001]; i64 d; Mix m; };

namespace rpp {
RPP_ENUM(Colour, green, RPP_CASE(red), RPP_CASE(green), RPP_CASE(blue));
RPP_NAMED_ENUM(Wide, "Broad", zero, RPP_CASE(hi), RPP_CASE(lo), RPP_CASE(zero), RPP_CASE(one));
RPP_ENUM(Lone, only, RPP_CASE(only));
RPP_RECORD(One, RPP_FIELD(x));
RPP_RECORD(Mix, RPP_FIELD(a), RPP_FIELD(b), RPP_FIELD(c), RPP_FIELD(d), RPP_FIELD(e), RPP_FIELD(f));
RPP_RECORD(Part, RPP_FIELD(c), RPP_FIELD(a));
RPP_NAMED_RECORD(Nest, "Bird", RPP_FIELD(tag), RPP_FIELD(in), RPP_FIELD(one));
RPP_RECORD(Arrs, RPP_FIELD(h), RPP_FIELD(v), RPP_FIELD(t));
RPP_RECORD(Bare);
template<typename T> RPP_TEMPLATE_RECORD(Tmpl, T, RPP_FIELD(first), RPP_FIELD(second));
RPP_RECORD(Ptrs, RPP_FIELD(b), RPP_FIELD(p), RPP_FIELD(q), RPP_FIELD(e), RPP_FIELD(w), RPP_FIELD(z));
template<typename A, typename B>
RPP_NAMED_TEMPLATE_RECORD(Two, "Couple", RPP_PACK(A, B), RPP_FIELD(b), RPP_FIELD(a));
RPP_RECORD(Consty, RPP_FIELD(a), RPP_FIELD(k), RPP_FIELD(z));
RPP_RECORD(Deep, RPP_FIELD(f), RPP_FIELD(n), RPP_FIELD(w));
RPP_RECORD(Many, RPP_FIELD(a), RPP_FIELD(b), RPP_FIELD(c), RPP_FIELD(d), RPP_FIELD(e), RPP_FIELD(f), RPP_FIELD(g),
           RPP_FIELD(h), RPP_FIELD(i), RPP_FIELD(j), RPP_FIELD(k), RPP_FIELD(l));
RPP_RECORD(Big, RPP_FIELD(a), RPP_FIELD(b), RPP_FIELD(c), RPP_FIELD(v), RPP_FIELD(d), RPP_FIELD(m));
} // namespace rpp

namespace {
const char* kind_name(Reflect::Kind k) {
    switch(k) {
    case Reflect::Kind::void_: return "void";
    case Reflect::Kind::char_: return "char";
    case Reflect::Kind::i8_: return "i8";
    case Reflect::Kind::i16_: return "i16";
    case Reflect::Kind::i32_: return "i32";
    case Reflect::Kind::i64_: return "i64";
    case Reflect::Kind::u8_: return "u8";
    case Reflect::Kind::u16_: return "u16";
    case Reflect::Kind::u32_: return "u32";
    case Reflect::Kind::u64_: return "u64";
    case Reflect::Kind::f32_: return "f32";
    case Reflect::Kind::f64_: return "f64";
    case Reflect::Kind::bool_: return "bool";
    case Reflect::Kind::array_: return "array";
    case Reflect::Kind::pointer_: return "pointer";
    case Reflect::Kind::enum_: return "enum";
    case Reflect::Kind::record_: return "record";
    }
    return "?";
}

i32 targets[128];
// members as numbers: pointers count targets from 1, enumerators are ordered by value
template<typename T> long read(const T& x) {
    if constexpr(std::is_same_v<T, Colour>) return x == Colour::red ? 0 : x == Colour::green ? 1 : x == Colour::blue ? 2 : -1;
    else if constexpr(std::is_same_v<T, Wide>) return x == Wide::lo ? 0 : x == Wide::zero ? 1 : x == Wide::one ? 2 : x == Wide::hi ? 3 : -1;
    else if constexpr(std::is_pointer_v<T>) return x ? x - targets + 1 : 0;
    else return (long)x;
}
template<typename T> void set(T& x, long v) {
    if constexpr(std::is_same_v<T, Colour>) x = v % 3 == 0 ? Colour::red : v % 3 == 1 ? Colour::green : Colour::blue;
    else if constexpr(std::is_same_v<T, Wide>) x = v % 4 == 0 ? Wide::lo : v % 4 == 1 ? Wide::zero : v % 4 == 2 ? Wide::one : Wide::hi;
    else if constexpr(std::is_pointer_v<T>) x = v ? targets + (v - 1) : nullptr;
    else if constexpr(std::is_same_v<T, bool>) x = v % 2;
    else x = (T)v;
}

// the scalars of each record in the order of declaration, found without reflection
struct Leaves {
    std::vector<long> all;
    long at = 0, v = 0; // write v to leaf number at
    template<typename T> void operator()(T& x) {
        if(at && (long)all.size() + 1 == at) set(const_cast<std::remove_const_t<T>&>(x), v);
        all.push_back(read(x));
    }
};
void leaves(Leaves& l, One& o) { l(o.x); }
void leaves(Leaves& l, Mix& o) { l(o.a), l(o.b), l(o.c), l(o.d), l(o.e), l(o.f); }
void leaves(Leaves& l, Part& o) { l(o.a), l(o.b), l(o.c), l(o.d); }
void leaves(Leaves& l, Nest& o) { l(o.tag), leaves(l, o.in), leaves(l, o.one); }
void leaves(Leaves& l, Arrs& o) { l(o.h), l(o.v[0]), l(o.v[1]), l(o.v[2]), l(o.t); }
void leaves(Leaves& l, Bare& o) { l(o.hidden); }
template<typename T> void leaves(Leaves& l, Tmpl<T>& o) { l(o.first), l(o.second); }
void leaves(Leaves& l, Ptrs& o) { l(o.b), l(o.p), l(o.q), l(o.e), l(o.w), l(o.z); }
void leaves(Leaves& l, Two<u16, Mix>& o) { l(o.a), leaves(l, o.b); }
void leaves(Leaves& l, Consty& o) { l(o.a), l(o.k), l(o.z); }
void leaves(Leaves& l, Deep& o) { l(o.f), leaves(l, o.n), leaves(l, o.w); }
void leaves(Leaves& l, Many& o) {
    l(o.a), l(o.b), l(o.c), l(o.d), l(o.e), l(o.f), l(o.g), l(o.h), l(o.i), l(o.j), l(o.k), l(o.l);
}
template<size_t N> void pad(Leaves& l, u8 (&p)[N]) {
    long s = 0;
    for(u8 x : p) s += x;
    l.all.push_back(s);
}
void leaves(Leaves& l, Big& o) {
    l(o.a), pad(l, o.p1), l(o.b), pad(l, o.p2), l(o.c), l(o.v[0]), l(o.v[1]), l(o.v[2]), pad(l, o.p3), l(o.d), leaves(l, o.m);
}

template<typename T> constexpr bool is_record = Reflect::Refl<std::remove_cvref_t<T>>::kind == Reflect::Kind::record_;
template<typename T> void numbers(std::vector<long>& r, const T& x) {
    if constexpr(std::is_array_v<T>) {
        for(auto& y : x) numbers(r, y);
    } else if constexpr(!is_record<T>) r.push_back(read(x));
}
struct Fill;
template<typename T> void assign(T& x, long v);
struct Fill {
    long v;
    template<typename T> void apply(const Literal&, T& x) { assign(x, v); }
};
template<typename T> void assign(T& x, long v) {
    if constexpr(std::is_const_v<std::remove_all_extents_t<T>>) {
    } else if constexpr(std::is_array_v<T>) {
        for(auto& y : x) assign(y, v);
    } else if constexpr(is_record<T>) {
        Reflect::iterate_record(Fill{v}, x);
    } else set(x, v);
}
template<bool Const> struct Walk {
    const u8* base;
    long w, v;
    bool deep;
    long depth = 0;
    std::string* out;
    long* n;
    template<typename T> void apply(const Literal& name, std::conditional_t<Const, const T&, T&> x) {
        using X = std::remove_reference_t<decltype(x)>;
        using R = Reflect::Refl<std::remove_cv_t<X>>;
        (*n)++;
        std::vector<long> r;
        numbers(r, x);
        Ev e;
        e.str("n", (const char*)name);
        e.str("k", kind_name(R::kind));
        e.num("o", (const u8*)&x - base);
        e.num("s", sizeof(X));
        e.boolean("c", std::is_const_v<std::remove_all_extents_t<X>>);
        e.num("d", depth);
        e.nums("v", r);
        *out += (out->empty() ? "" : ",") + e.s + "}";
        if(w == *n) assign(x, v);
        if constexpr(is_record<X>)
            if(deep) {
                Walk in = *this;
                in.depth++;
                Reflect::iterate_record(in, x);
            }
    }
};
template<typename T> void walk(const Op& op, T& o, Ev& e) {
    std::string out;
    long n = 0;
    if(op.get("c")) {
        Walk<true> w{(const u8*)&o, 0, 0, op.get("deep") == 1, 0, &out, &n};
        if(op.get("rv")) Reflect::iterate_record(rpp::move(w), (const T&)o);
        else Reflect::iterate_record(w, (const T&)o);
    } else {
        Walk<false> w{(const u8*)&o, op.get("w"), op.get("v"), op.get("deep") == 1, 0, &out, &n};
        if(op.get("rv")) Reflect::iterate_record(rpp::move(w), o);
        else Reflect::iterate_record(w, o);
    }
    e.raw("visits", "[" + out + "]");
}
One one; Mix mix; Part part; Nest nest; Arrs arrs; Bare empty_; Tmpl<i64> tl; Tmpl<u8> tb; Ptrs ptrs;
Two<u16, Mix> two; Consty consty{0, 0, 0}; Deep deep; Many many; Big big;
template<typename F> void with(long r, F&& f) {
    switch(r) {
    case 1: f(one); break;
    case 2: f(mix); break;
    case 3: f(part); break;
    case 4: f(nest); break;
    case 5: f(arrs); break;
    case 6: f(empty_); break;
    case 7: f(tl); break;
    case 8: f(tb); break;
    case 9: f(ptrs); break;
    case 10: f(two); break;
    case 11: f(consty); break;
    case 12: f(deep); break;
    case 13: f(many); break;
    case 14: f(big); break;
    default: _exit(98);
    }
}

template<typename E> void walk_enum(bool rv, Ev& e) {
    std::string names;
    std::vector<long> vals;
    struct See {
        std::string& names;
        std::vector<long>& vals;
        long n = 0, calls = 0;
        void operator()(const Literal& name, const E& v) {
            n++;
            names += (names.empty() ? "\"" : ",\"") + std::string((const char*)name) + "\"";
            vals.push_back(read(v));
        }
    };
    if(rv) Reflect::iterate_enum<E>(See{names, vals});
    else {
        See s{names, vals};
        Reflect::iterate_enum<E>(s);
        if(s.n != (long)vals.size()) vals.push_back(-7); // the visitor itself is called, not a copy
    }
    e.raw("names", "[" + names + "]");
    e.nums("vals", vals);
    e.num("deflt", read(Reflect::Refl<E>::default_));
    e.str("under", (const char*)Reflect::Refl<typename Reflect::Refl<E>::underlying>::name);
    e.num("len", (long)Reflect::List_Length<typename Reflect::Refl<E>::members>);
}
template<> long read<Lone>(const Lone& x) { return x == Lone::only ? 0 : -1; }

// type lists
template<int I> struct Ty { constexpr static int i = I; };
template<int K> struct Is {
    template<typename T> constexpr static bool value = T::i == K;
};
template<int K> struct Below {
    template<typename T> constexpr static bool value = T::i < K;
};
struct Index {
    std::vector<long>* r;
    template<typename T> void apply() { r->push_back(T::i); }
};
struct Number {
    std::vector<long>* r;
    template<typename T> void apply() { r->push_back((long)T::value); }
};
template<int... I> void list_op(Ev& e) {
    using L = List<Ty<I>...>;
    std::vector<long> fwd, fwd2, rev, num;
    Index x{&fwd2};
    Reflect::Iter<Index, L>::apply(Index{&fwd});
    Reflect::Iter<Index, L>::apply(x);
    Reflect::Iter<Index, Reflect::Reverse<L>>::apply(Index{&rev});
    Reflect::Iter<Number, Reflect::Enumerate<Ty<I>...>>::apply(Number{&num});
    e.nums("fwd", fwd);
    e.nums("again", fwd2);
    e.nums("rev", rev);
    e.nums("num", num);
    e.num("len", (long)Reflect::List_Length<L>);
    e.nums("all", std::vector<long>{Reflect::All<Is<0>, L>, Reflect::All<Is<1>, L>, Reflect::All<Is<2>, L>,
                                    Reflect::All<Below<2>, L>, Reflect::All<Below<3>, L>});
    e.boolean("list", Type_List<L> && Type_List<Reflect::Reverse<L>> && !Type_List<Ty<0>> && !Type_List<int>);
}
template<int... I> void lists(const Op& op, long at, Ev& e) {
    long n = op.get("n");
    if((long)sizeof...(I) == n) return list_op<I...>(e);
    if constexpr(sizeof...(I) < 5) {
        char k[3] = {'t', (char)('1' + at), 0};
        switch(op.get(k)) {
        case 0: return lists<I..., 0>(op, at + 1, e);
        case 1: return lists<I..., 1>(op, at + 1, e);
        default: return lists<I..., 2>(op, at + 1, e);
        }
    }
}

template<typename T> void type_op(Ev& e) {
    using R = Reflect::Refl<T>;
    e.str("name", (const char*)R::name);
    e.str("kind", kind_name(R::kind));
    if constexpr(requires { R::length; }) e.num("length", (long)R::length);
    else e.num("length", 0);
    if constexpr(requires { typename R::underlying; }) e.str("under", (const char*)Reflect::Refl<typename R::underlying>::name);
    else e.str("under", "");
}
// w: 0 plain, 1 const, 2 volatile, 3 &, 4 &&, 5 *, 6 const *, 7 [3], 8 const [5], 9 const &, 10 * const, 11 **, 12 [2][4], 13 const volatile
template<typename T> void wrapped(long w, Ev& e) {
    switch(w) {
    case 0: return type_op<T>(e);
    case 1: return type_op<const T>(e);
    case 2: return type_op<volatile T>(e);
    case 3: return type_op<T&>(e);
    case 4: return type_op<T&&>(e);
    case 5: return type_op<T*>(e);
    case 6: return type_op<const T*>(e);
    case 7: return type_op<T[3]>(e);
    case 9: return type_op<const T&>(e);
    case 10: return type_op<T* const>(e);
    case 11: return type_op<T**>(e);
    case 13: return type_op<const volatile T>(e);
    default: _exit(98);
    }
}
void types(long t, long w, Ev& e) {
    switch(t) {
    case 1: return wrapped<char>(w, e);
    case 2: return wrapped<i8>(w, e);
    case 3: return wrapped<i16>(w, e);
    case 4: return wrapped<i32>(w, e);
    case 5: return wrapped<i64>(w, e);
    case 6: return wrapped<u8>(w, e);
    case 7: return wrapped<u16>(w, e);
    case 8: return wrapped<u32>(w, e);
    case 9: return wrapped<u64>(w, e);
    case 10: return wrapped<f32>(w, e);
    case 11: return wrapped<f64>(w, e);
    case 12: return wrapped<bool>(w, e);
    case 13: return wrapped<Reflect::Kind>(w, e);
    case 14: return wrapped<Colour>(w, e);
    case 15: return wrapped<Wide>(w, e);
    case 16: return wrapped<Mix>(w, e);
    case 17: return wrapped<Nest>(w, e);
    case 18: return wrapped<Tmpl<u8>>(w, e);
    case 19: return wrapped<Two<u16, Mix>>(w, e);
    case 20: return type_op<void>(e);
    case 21: return type_op<decltype(null)>(e);
    case 22: return type_op<void*>(e);
    default: _exit(98);
    }
}
constexpr Literal lits[] = {"",  "a", "b",  "ab",  "abc", "abd", "Abc", "aB", "abcdefghijklmnopqrstuvwxyz01234",
                            "abcdefghijklmnopqrstuvwxyz01235", "bbcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz0123", "a b"};
template<typename T> void bytes(std::vector<long>& r, T x) {
    u8 b[sizeof(T)];
    memcpy(b, &x, sizeof(T));
    for(u8 v : b) r.push_back(v);
}
template<typename T> void limit(long i, Ev& e) {
    std::vector<long> r;
    bytes(r, i == 1 ? Limits<T>::max() : i == 2 ? Limits<T>::min() : i == 3 ? Limits<T>::smallest_norm()
             : i == 4 ? Limits<T>::smallest_denorm() : Limits<T>::epsilon());
    e.nums("bits", r);
}
} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            const Op& op = sc[i];
            begin_op((long)i);
            Ev e;
            e.head(op, "ok");
            const std::string& n = op.name;
            long r = op.get("r");
            if(n == "set") {
                Leaves l{{}, op.get("i"), op.get("v")};
                with(r, [&](auto& o) { leaves(l, o); });
            } else if(n == "walk") {
                with(r, [&](auto& o) { walk(op, o, e); });
            } else if(n == "enum") {
                if(r == 1) walk_enum<Colour>(op.get("rv"), e);
                else if(r == 2) walk_enum<Wide>(op.get("rv"), e);
                else walk_enum<Lone>(op.get("rv"), e);
            } else if(n == "list") lists<>(op, 0, e);
            else if(n == "type") types(op.get("t"), op.get("w"), e);
            else if(n == "lit") {
                e.boolean("eq", lits[op.get("i")] == lits[op.get("j")]);
                e.str("text", (const char*)lits[op.get("i")]);
            } else if(n == "limit") {
                if(op.get("t") == 1) limit<f32>(op.get("i"), e);
                else limit<f64>(op.get("i"), e);
            } else if(n != "reset" && n != "end") _exit(98);
            if(n == "set" || n == "walk") {
                Leaves l;
                with(r, [&](auto& o) { leaves(l, o); });
                e.nums("all", l.all);
            }
            emit(e);
        }
    });
}
