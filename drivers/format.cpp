// Conformance driver for formatting and parsing (C19).
#include "common.h"
#include <math.h>
#include <rpp/array.h>
#include <rpp/box.h>
#include <rpp/function.h>
#include <rpp/heap.h>
#include <rpp/map.h>
#include <rpp/opt.h>
#include <rpp/queue.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/tuple.h>
#include <rpp/variant.h>
#include <rpp/vec.h>
#include <rpp/vmath.h>
using namespace rpp;
using namespace drv;

enum class E8 : i8 { a = 1, b = -3, ab = 5, aa = 100, A = 7, long_enumerator_name = -128, minus7 = 127 };
template<> struct ::rpp::Reflect::Refl<E8> {
    using __T = E8;
    using underlying = i8;
    constexpr static Literal name = "E8";
    constexpr static Kind kind = Kind::enum_;
    constexpr static E8 default_ = E8::a;
    using members = List<RPP_CASE(a), RPP_CASE(b), RPP_CASE(ab), RPP_CASE(aa), RPP_CASE(A),
                         RPP_CASE(long_enumerator_name), Case<E8, E8::minus7, "-7">>;
};
struct Plain {
    i32 i;
    u16 u;
};
struct Nested {
    Vec<i32> numbers;
    Opt<String<>> name;
    Plain plain;
    bool on;
};
struct One {
    i64 only;
};
RPP_RECORD(Plain, RPP_FIELD(i), RPP_FIELD(u));
RPP_RECORD(Nested, RPP_FIELD(numbers), RPP_FIELD(name), RPP_FIELD(plain), RPP_FIELD(on));
RPP_NAMED_RECORD(One, "A Named Record", RPP_FIELD(only));

namespace {
struct Rnd {
    u64 s;
    explicit Rnd(long seed) : s((u64)seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull) {
    }
    u64 next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull >> 7;
    }
    long pick(long n) {
        return (long)(next() % (u64)n);
    }
    long size() {
        static const long sz[] = {0, 1, 2, 3, 1, 2, 4, 9};
        return sz[pick(8)];
    }
};
std::string q(const std::string& v) {
    Ev e;
    e.str("x", v);
    return e.s.substr(5);
}
std::string q(String_View v) {
    return q(std::string((const char*)v.data(), v.length()));
}
std::string node(const char* k) {
    return std::string("{\"k\":\"") + k + "\"";
}
std::string named(const char* k, const char* name) {
    return node(k) + ",\"name\":" + q(std::string(name));
}
template<typename T> T* keep(T&& x) {
    void* m = malloc(sizeof(T));
    return new(m) T(static_cast<T&&>(x));
}
template<typename T> struct Mk;

template<typename I> struct MkInt {
    static I make(Rnd& r) {
        switch(r.pick(9)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return (I)-1;
        case 3: return std::numeric_limits<I>::min();
        case 4: return std::numeric_limits<I>::max();
        case 5: return (I)(std::numeric_limits<I>::min() + 1);
        case 6: return (I)r.pick(100);
        case 7: return (I)(r.next() >> r.pick(64));
        default: return (I)r.next();
        }
    }
    static std::string tree(const I& v) {
        return node("int") + ",\"v\":\"" + std::to_string(v) + "\"}";
    }
};
template<> struct Mk<i8> : MkInt<i8> {};
template<> struct Mk<i16> : MkInt<i16> {};
template<> struct Mk<i32> : MkInt<i32> {};
template<> struct Mk<i64> : MkInt<i64> {};
template<> struct Mk<u8> : MkInt<u8> {};
template<> struct Mk<u16> : MkInt<u16> {};
template<> struct Mk<u32> : MkInt<u32> {};
template<> struct Mk<u64> : MkInt<u64> {};
template<> struct Mk<bool> {
    static bool make(Rnd& r) {
        return r.pick(2);
    }
    static std::string tree(bool v) {
        return node("bool") + ",\"v\":" + (v ? "1}" : "0}");
    }
};
template<> struct Mk<char> {
    static char make(Rnd& r) {
        return r.pick(4) ? (char)(32 + r.pick(95)) : (char)r.pick(256);
    }
    static std::string tree(char v) {
        return node("str") + ",\"v\":" + q(std::string(1, v)) + "}";
    }
};
template<typename F> struct MkF {
    static F make(Rnd& r) {
        static const int es[] = {24, 31, 32, 53, 63, 64, 100, 127};
        switch(r.pick(12)) {
        case 0: return 0;
        case 1: return (F)-0.0;
        case 2: return (F)INFINITY;
        case 3: return (F)-INFINITY;
        case 4: return (F)NAN;
        case 5: return (F)ldexp(r.pick(2) ? 1 : -1, es[r.pick(8)]);
        case 6: return (F)r.pick(3) / 64;
        default: return (F)((double)(r.pick(1 << 23) - (1 << 22)) / 64);
        }
    }
    static std::string tree(F v) {
        std::string neg = std::string(",\"neg\":") + (signbit(v) ? "1" : "0");
        if(isnan(v)) return node("spec") + neg + ",\"v\":\"nan\"}";
        if(isinf(v)) return node("spec") + neg + ",\"v\":\"inf\"}";
        double a = fabs((double)v);
        if(a < 1 << 24) return node("flt") + neg + ",\"n\":" + std::to_string((long)(a * 64)) + "}";
        int e;
        frexp(a, &e);
        return node("pow") + neg + ",\"e\":" + std::to_string(e - 1) + "}";
    }
};
template<> struct Mk<f32> : MkF<f32> {};
template<> struct Mk<f64> : MkF<f64> {};
std::string text(Rnd& r) {
    static const char* words[] = {"", "a", "%", "%%", "hello", "Opt{", "], [", "x y", "\"\\"};
    std::string t = words[r.pick(9)];
    if(!r.pick(6))
        for(long i = r.pick(40); i > 0; i--) t += (char)(r.pick(256));
    return t;
}
template<> struct Mk<String_View> {
    static String_View make(Rnd& r) {
        std::string* t = keep(text(r));
        return String_View{(const u8*)t->data(), t->size()};
    }
    static std::string tree(String_View v) {
        return node("str") + ",\"v\":" + q(v) + "}";
    }
};
template<typename A> struct Mk<String<A>> {
    static String<A> make(Rnd& r) {
        std::string t = text(r);
        return String_View{(const u8*)t.data(), t.size()}.template string<A>();
    }
    static std::string tree(const String<A>& v) {
        return Mk<String_View>::tree(v.view());
    }
};
template<typename C> std::string list(const char* name, const C& c) {
    std::string t = named("list", name) + ",\"xs\":[";
    bool first = true;
    for(auto& x : c) {
        if(!first) t += ",";
        first = false;
        t += Mk<Decay<decltype(x)>>::tree(x);
    }
    return t + "]}";
}
template<typename T> struct Mk<Vec<T>> {
    static Vec<T> make(Rnd& r) {
        Vec<T> v;
        for(long n = r.size(); n > 0; n--) v.push(Mk<T>::make(r));
        return v;
    }
    static std::string tree(const Vec<T>& v) {
        std::string t = named("list", "Vec") + ",\"xs\":[";
        for(u64 i = 0; i < v.length(); i++) t += (i ? "," : "") + Mk<T>::tree(v[i]);
        return t + "]}";
    }
};
template<typename T> struct Mk<Slice<T>> {
    static Slice<T> make(Rnd& r) {
        return keep(Mk<Vec<Decay<T>>>::make(r))->slice();
    }
    static std::string tree(const Slice<T>& v) {
        std::string t = named("list", "Slice") + ",\"xs\":[";
        for(u64 i = 0; i < v.length(); i++) t += (i ? "," : "") + Mk<Decay<T>>::tree(v[i]);
        return t + "]}";
    }
};
template<typename T> struct Mk<Stack<T>> {
    static Stack<T> make(Rnd& r) {
        Stack<T> v;
        for(long n = r.size(); n > 0; n--) v.push(Mk<T>::make(r));
        if(!v.empty() && r.pick(2)) v.pop();
        return v;
    }
    static std::string tree(const Stack<T>& v) {
        return list("Stack", v);
    }
};
template<typename T> struct Mk<Queue<T>> {
    // the first element may lie anywhere in the buffer
    static Queue<T> make(Rnd& r) {
        Queue<T> v;
        for(long n = r.size() + 3; n > 0; n--) v.push(Mk<T>::make(r));
        for(long n = r.pick((long)v.length() + 1); n > 0; n--) v.pop();
        for(long n = r.pick(5); n > 0; n--) v.push(Mk<T>::make(r));
        return v;
    }
    static std::string tree(const Queue<T>& v) {
        std::string t = named("list", "Queue") + ",\"xs\":[";
        for(u64 i = 0; i < v.length(); i++) t += (i ? "," : "") + Mk<T>::tree(v[i]);
        return t + "]}";
    }
};
template<typename T> struct Mk<Heap<T>> {
    static Heap<T> make(Rnd& r) {
        Heap<T> v;
        for(long n = r.size(); n > 0; n--) v.push(Mk<T>::make(r));
        if(!v.empty() && r.pick(2)) v.pop();
        return v;
    }
    static std::string tree(const Heap<T>& v) {
        return list("Heap", v);
    }
};
template<typename T, u64 N> struct Mk<Array<T, N>> {
    template<u64... Is> static Array<T, N> go(Rnd& r, std::index_sequence<Is...>) {
        return Array<T, N>{((void)Is, Mk<T>::make(r))...};
    }
    static Array<T, N> make(Rnd& r) {
        return go(r, std::make_index_sequence<N>{});
    }
    static std::string tree(const Array<T, N>& v) {
        std::string t = named("list", "") + ",\"xs\":[";
        for(u64 i = 0; i < N; i++) t += (i ? "," : "") + Mk<T>::tree(v[i]);
        return t + "]}";
    }
};
template<typename K, typename V> struct Mk<Map<K, V>> {
    static Map<K, V> make(Rnd& r) {
        Map<K, V> v;
        for(long n = r.size() + r.pick(2) * r.pick(12); n > 0; n--) v.insert(Mk<K>::make(r), Mk<V>::make(r));
        if(v.length() && r.pick(2)) {
            // a map that has been erased from
            K k = Mk<K>::make(r);
            if(!v.contains(k)) v.insert(Mk<K>::tree(k).size() ? rpp::move(k) : Mk<K>::make(r), Mk<V>::make(r));
        }
        return v;
    }
    static std::string tree(const Map<K, V>& v) {
        std::string t = node("map") + ",\"xs\":[";
        bool first = true;
        for(auto& p : v) {
            if(!first) t += ",";
            first = false;
            t += "[" + Mk<K>::tree(p.first) + "," + Mk<V>::tree(p.second) + "]";
        }
        return t + "]}";
    }
};
std::string maybe(const char* name, const char* none, const std::string& x) {
    return named("maybe", name) + ",\"none\":\"" + none + "\",\"xs\":[" + x + "]}";
}
template<typename T> struct Mk<Opt<T>> {
    static Opt<T> make(Rnd& r) {
        if(!r.pick(3)) return Opt<T>{};
        return Opt<T>{Mk<T>::make(r)};
    }
    static std::string tree(const Opt<T>& v) {
        return maybe("Opt", "None", v.ok() ? Mk<T>::tree(*v) : "");
    }
};
template<typename T> struct Mk<Box<T>> {
    static Box<T> make(Rnd& r) {
        if(!r.pick(3)) return Box<T>{};
        return Box<T>{Mk<T>::make(r)};
    }
    static std::string tree(const Box<T>& v) {
        return maybe("Box", "null", v.ok() ? Mk<T>::tree(*v) : "");
    }
};
template<typename T> struct Mk<Ref<T>> {
    static Ref<T> make(Rnd& r) {
        if(!r.pick(3)) return Ref<T>{};
        return Ref<T>{*keep(Mk<Decay<T>>::make(r))};
    }
    static std::string tree(const Ref<T>& v) {
        return maybe("Ref", "null", v.ok() ? Mk<Decay<T>>::tree(*v) : "");
    }
};
template<typename P, typename T> struct MkRc {
    static P make(Rnd& r) {
        if(!r.pick(4)) return P{};
        P p{Mk<T>::make(r)};
        for(long n = r.pick(13); n > 0; n--) keep(p.dup());
        return p;
    }
    static std::string tree_of(const char* name, const P& p) {
        return named("counted", name) + ",\"n\":" + std::to_string(p.ok() ? (long)p.references() : 0) + ",\"xs\":[" +
               (p.ok() ? Mk<T>::tree(*p) : "") + "]}";
    }
};
template<typename T> struct Mk<Rc<T>> : MkRc<Rc<T>, T> {
    static std::string tree(const Rc<T>& p) {
        return Mk::tree_of("Rc", p);
    }
};
template<typename T> struct Mk<Arc<T>> : MkRc<Arc<T>, T> {
    static std::string tree(const Arc<T>& p) {
        return Mk::tree_of("Arc", p);
    }
};
std::string brace(const char* name, const std::string& xs) {
    return named("brace", name) + ",\"xs\":[" + xs + "]}";
}
template<typename A, typename B> struct Mk<Pair<A, B>> {
    static Pair<A, B> make(Rnd& r) {
        A a = Mk<A>::make(r);
        B b = Mk<B>::make(r);
        return Pair<A, B>{rpp::move(a), rpp::move(b)};
    }
    static std::string tree(const Pair<A, B>& v) {
        return brace("Pair", Mk<A>::tree(v.first) + "," + Mk<B>::tree(v.second));
    }
};
template<typename... Ts> struct Mk<Tuple<Ts...>> {
    static Tuple<Ts...> make(Rnd& r) {
        return Tuple<Ts...>{Mk<Ts>::make(r)...};
    }
    template<u64... Is> static std::string go(const Tuple<Ts...>& v, std::index_sequence<Is...>) {
        std::string t;
        ((t += (Is ? "," : "") + Mk<Ts>::tree(v.template get<Is>())), ...);
        return t;
    }
    static std::string tree(const Tuple<Ts...>& v) {
        return brace("Tuple", go(v, std::make_index_sequence<sizeof...(Ts)>{}));
    }
};
template<Literal L, typename T> struct Mk<Named<L, T>> {
    static Named<L, T> make(Rnd& r) {
        return Named<L, T>{Mk<T>::make(r)};
    }
    static std::string tree(const Named<L, T>& v) {
        return brace(L.c_string, Mk<T>::tree(v.value));
    }
};
template<typename... Ts> struct Mk<Variant<Ts...>> {
    using V = Variant<Ts...>;
    static V make(Rnd& r) {
        using F = V (*)(Rnd&);
        static const F fs[] = {+[](Rnd& q) { return V{Mk<Ts>::make(q)}; }...};
        return fs[r.pick(sizeof...(Ts))](r);
    }
    static std::string tree(const V& v) {
        return brace("Variant", v.match(Overload{[](const Ts& x) { return Mk<Ts>::tree(x); }...}));
    }
};
std::string fields(const char* name, std::vector<std::pair<const char*, std::string>> f) {
    std::string t = named("record", name) + ",\"fs\":[", x;
    for(size_t i = 0; i < f.size(); i++) {
        t += (i ? "," : "") + q(std::string(f[i].first));
        x += (i ? "," : "") + f[i].second;
    }
    return t + "],\"xs\":[" + x + "]}";
}
template<> struct Mk<Plain> {
    static Plain make(Rnd& r) {
        return Plain{Mk<i32>::make(r), Mk<u16>::make(r)};
    }
    static std::string tree(const Plain& v) {
        return fields("Plain", {{"i", Mk<i32>::tree(v.i)}, {"u", Mk<u16>::tree(v.u)}});
    }
};
template<> struct Mk<One> {
    static One make(Rnd& r) {
        return One{Mk<i64>::make(r)};
    }
    static std::string tree(const One& v) {
        return fields("A Named Record", {{"only", Mk<i64>::tree(v.only)}});
    }
};
template<> struct Mk<Nested> {
    static Nested make(Rnd& r) {
        return Nested{Mk<Vec<i32>>::make(r), Mk<Opt<String<>>>::make(r), Mk<Plain>::make(r), Mk<bool>::make(r)};
    }
    static std::string tree(const Nested& v) {
        return fields("Nested", {{"numbers", Mk<Vec<i32>>::tree(v.numbers)}, {"name", Mk<Opt<String<>>>::tree(v.name)},
                                 {"plain", Mk<Plain>::tree(v.plain)}, {"on", Mk<bool>::tree(v.on)}});
    }
};
template<> struct Mk<Log::Location> {
    static Log::Location make(Rnd& r) {
        return Log::Location{Mk<String_View>::make(r), Mk<String_View>::make(r), Mk<u64>::make(r)};
    }
    static std::string tree(const Log::Location& v) {
        return fields("Location", {{"function", Mk<String_View>::tree(v.function)}, {"file", Mk<String_View>::tree(v.file)},
                                   {"line", Mk<u64>::tree(v.line)}});
    }
};
template<> struct Mk<Thread::Atomic> {
    static Thread::Atomic make(Rnd& r) {
        return Thread::Atomic{Mk<i64>::make(r)};
    }
    static std::string tree(const Thread::Atomic& v) {
        return fields("Atomic", {{"value_", Mk<i64>::tree(v.load())}});
    }
};
std::string cases(const char* name, std::vector<std::string> cs) {
    std::string t = named("enum", name) + ",\"cs\":[";
    for(size_t i = 0; i < cs.size(); i++) t += (i ? "," : "") + q(cs[i]);
    return t + "]}";
}
const std::pair<int, const char*> e8[] = {{1, "a"}, {-3, "b"}, {5, "ab"}, {100, "aa"}, {7, "A"}, {-128, "long_enumerator_name"}, {127, "-7"}};
template<> struct Mk<E8> {
    static E8 make(Rnd& r) {
        if(!r.pick(4)) return (E8)r.pick(256);
        return (E8)e8[r.pick(7)].first;
    }
    static std::string tree(E8 v) {
        for(auto& p : e8)
            if(p.first == (int)v) return cases("E8", {p.second});
        return cases("E8", {});
    }
};
#define ENUM(T, NAME, ...)                                                                                             \
    template<> struct Mk<T> {                                                                                          \
        constexpr static const char* names[] = {__VA_ARGS__};                                                          \
        constexpr static int n = sizeof(names) / sizeof(names[0]);                                                     \
        static T make(Rnd& r) {                                                                                        \
            return (T)r.pick(n + 1);                                                                                   \
        }                                                                                                              \
        static std::string tree(T v) {                                                                                 \
            return (int)v < n ? cases(NAME, {names[(int)v]}) : cases(NAME, {});                                        \
        }                                                                                                              \
    }
ENUM(Log::Level, "Level", "info", "warn", "fatal");
ENUM(Thread::Priority, "Priority", "low", "normal", "high", "critical");
ENUM(Reflect::Kind, "Kind", "void_", "char_", "i8_", "i16_", "i32_", "i64_", "u8_", "u16_", "u32_", "u64_", "f32_", "f64_", "bool_",
     "array_", "pointer_", "enum_", "record_");
static_assert((int)Reflect::Kind::record_ == 16);
template<typename T> struct Mk<T*> {
    static T* make(Rnd& r) {
        return r.pick(3) ? (T*)(u64)(r.next() >> r.pick(57)) : nullptr;
    }
    static std::string tree(T* const& p) {
        std::string h;
        for(u64 v = (u64)p; v; v /= 16) h = "0123456789abcdef"[v % 16] + h;
        return node("ptr") + ",\"v\":\"" + h + "\"}";
    }
};
using Nullptr = decltype(nullptr);
template<> struct Mk<Nullptr> {
    static Nullptr make(Rnd&) {
        return nullptr;
    }
    static std::string tree(Nullptr) {
        return node("ptr") + ",\"v\":\"\"}";
    }
};
template<typename T> struct Mk<Storage<T>> {
    static Storage<T> make(Rnd&) {
        return Storage<T>{};
    }
    static std::string tree(const Storage<T>&) {
        return named("storage", Reflect::Refl<T>::name.c_string) + "}";
    }
};
template<> struct Mk<Storage<Plain>> {
    static Storage<Plain> make(Rnd&) {
        return Storage<Plain>{};
    }
    static std::string tree(const Storage<Plain>&) {
        return named("storage", "Plain") + "}";
    }
};
#define FUN(T, RET, ARGS, ...)                                                                                         \
    template<> struct Mk<Function<T>> {                                                                                \
        static Function<T> make(Rnd&) {                                                                                \
            return Function<T>{__VA_ARGS__};                                                                           \
        }                                                                                                              \
        static std::string tree(const Function<T>&) {                                                                  \
            return node("fun") + ",\"ret\":\"" RET "\",\"xs\":" ARGS "}";                                              \
        }                                                                                                              \
    }
FUN(void(), "void", "[]", [] {});
FUN(i32(u64), "i32", "[\"u64\"]", [](u64) { return 1; });
template<> struct Mk<Function<void(i32, String_View, bool)>> {
    static Function<void(i32, String_View, bool)> make(Rnd&) {
        return Function<void(i32, String_View, bool)>{[](i32, String_View, bool) {}};
    }
    static std::string tree(const Function<void(i32, String_View, bool)>&) {
        return node("fun") + ",\"ret\":\"void\",\"xs\":[\"i32\",\"String_View\",\"bool\"]}";
    }
};
FUN(Vec<i32>(const Vec<f32>&), "Vec", "[\"const Vec<f32>&\"]", [](const Vec<f32>&) { return Vec<i32>{}; });

template<typename V> std::string vect(const char* name, const V& v, int n) {
    std::string xs;
    for(int i = 0; i < n; i++) xs += (i ? "," : "") + Mk<Decay<decltype(v[0])>>::tree(v[(u64)i]);
    return brace(name, xs);
}
#define VEC(T, NAME, N)                                                                                                \
    template<> struct Mk<T> {                                                                                          \
        static T make(Rnd& r) {                                                                                        \
            T v{};                                                                                                     \
            for(u64 i = 0; i < N; i++) v[i] = Mk<Decay<decltype(v[0])>>::make(r);                                      \
            return v;                                                                                                  \
        }                                                                                                              \
        static std::string tree(const T& v) {                                                                          \
            return vect(NAME, v, N);                                                                                   \
        }                                                                                                              \
    }
VEC(Math::Vec2, "Vec2", 2);
VEC(Math::Vec3, "Vec3", 3);
VEC(Math::Vec4, "Vec4", 4);
VEC(Math::VecN<5>, "Vec5", 5);
VEC(Math::VecN<12>, "Vec12", 12);
VEC(Math::Vec2i, "Vec2i", 2);
VEC(Math::Vec3i, "Vec3i", 3);
VEC(Math::Vec4i, "Vec4i", 4);
VEC(Math::Vec2u, "Vec2u", 2);
VEC(Math::Vec4u, "Vec4u", 4);
VEC(Math::VecNi<6>, "Vec6i", 6);
template<> struct Mk<Math::Quat> {
    static Math::Quat make(Rnd& r) {
        return Math::Quat{Mk<f32>::make(r), Mk<f32>::make(r), Mk<f32>::make(r), Mk<f32>::make(r)};
    }
    static std::string tree(const Math::Quat& v) {
        return brace("Quat", Mk<f32>::tree(v.x) + "," + Mk<f32>::tree(v.y) + "," + Mk<f32>::tree(v.z) + "," + Mk<f32>::tree(v.w));
    }
};
template<typename V> std::string group(const V& v, int n) {
    std::string t = node("group") + ",\"xs\":[";
    for(int i = 0; i < n; i++) t += (i ? "," : "") + Mk<f32>::tree(v[(u64)i]);
    return t + "]}";
}
template<> struct Mk<Math::BBox> {
    static Math::BBox make(Rnd& r) {
        Math::Vec3 a = Mk<Math::Vec3>::make(r), b = Mk<Math::Vec3>::make(r);
        return Math::BBox{a, b};
    }
    static std::string tree(const Math::BBox& v) {
        return brace("BBox", group(v.min, 3) + "," + group(v.max, 3));
    }
};
template<> struct Mk<Math::Mat4> {
    static Math::Mat4 make(Rnd& r) {
        Math::Mat4 m{};
        for(u64 i = 0; i < 4; i++)
            for(u64 j = 0; j < 4; j++) m[i][j] = Mk<f32>::make(r);
        return m;
    }
    static std::string tree(const Math::Mat4& m) {
        std::string xs;
        for(u64 i = 0; i < 4; i++) xs += (i ? "," : "") + group(m[i], 4);
        return brace("Mat4", xs);
    }
};

using A1 = TestAlloc<3>;
struct Out {
    Ev& e;
    void text(String_View v) {
        e.str("r", std::string((const char*)v.data(), v.length()));
        e.num("len", (long)v.length());
    }
};
template<typename... Ts> void print(Ev& e, int how, String_View f, const Ts&... xs) {
    // exactly sized copy of the format string
    u8* p = f.length() ? (u8*)malloc(f.length()) : nullptr;
    if(p) memcpy(p, f.data(), f.length());
    String_View v{p, f.length()};
    Out o{e};
    if(how == 0) {
        auto s = format<A1>(v, xs...);
        o.text(s.view());
    } else if(how == 1) {
        auto s = format<Mdefault>(v, xs...);
        o.text(s.view());
    } else {
        Region(R) {
            auto s = format<Mregion<R>>(v, xs...);
            o.text(s.view());
        }
    }
    e.num("m", (long)format_length(v, xs...));
    ::free(p);
}

// values
using Fn = void (*)(Ev&, int, Rnd&);
template<typename T> void value(Ev& e, int how, Rnd& r) {
    T v = Mk<T>::make(r);
    e.raw("a", Mk<T>::tree(v));
    print(e, how, "%"_v, v);
}
// built in arrays cannot be made by a function
void carray(Ev& e, int how, Rnd& r) {
    i32 v[3] = {Mk<i32>::make(r), Mk<i32>::make(r), Mk<i32>::make(r)};
    e.raw("a", named("list", "") + ",\"xs\":[" + Mk<i32>::tree(v[0]) + "," + Mk<i32>::tree(v[1]) + "," + Mk<i32>::tree(v[2]) + "]}");
    print(e, how, "%"_v, v);
}
void carray1(Ev& e, int how, Rnd& r) {
    String<> v[1] = {Mk<String<>>::make(r)};
    e.raw("a", named("list", "") + ",\"xs\":[" + Mk<String<>>::tree(v[0]) + "]}");
    print(e, how, "%"_v, v);
}
using Str = String<>;
const Fn values[] = {
    value<i8>, value<i16>, value<i32>, value<i64>, value<u8>, value<u16>, value<u32>, value<u64>, value<bool>, value<char>,
    value<f32>, value<f64>, value<String_View>, value<Str>, value<String<TestAlloc<8>>>, value<Plain>, value<One>, value<Nested>,
    value<Log::Location>, value<Thread::Atomic>, value<E8>, value<Log::Level>, value<Thread::Priority>, value<Reflect::Kind>,
    value<i32*>, value<Nullptr>, value<Storage<Plain>>, value<Function<void()>>, value<Function<i32(u64)>>,
    value<Function<void(i32, String_View, bool)>>, value<Function<Vec<i32>(const Vec<f32>&)>>,
    value<Math::Vec2>, value<Math::Vec3>, value<Math::Vec4>, value<Math::VecN<5>>, value<Math::VecN<12>>, value<Math::Vec2i>, value<Math::Vec3i>,
    value<Math::Vec4i>, value<Math::Vec2u>, value<Math::Vec4u>, value<Math::VecNi<6>>, value<Math::Quat>, value<Math::BBox>, value<Math::Mat4>,
    value<Vec<i32>>, value<Vec<Str>>, value<Vec<Vec<i8>>>, value<Slice<const i32>>, value<Slice<Str>>, value<Stack<i32>>, value<Stack<Str>>,
    value<Queue<i32>>, value<Queue<Str>>, value<Queue<Queue<u8>>>, value<Heap<i32>>, value<Heap<u64>>, value<Array<i32, 1>>,
    value<Array<Str, 3>>, value<Array<Array<bool, 2>, 2>>, value<Map<i32, Str>>, value<Map<Str, Vec<i32>>>, value<Map<u64, bool>>,
    value<Opt<i32>>, value<Opt<Str>>, value<Opt<Opt<bool>>>, value<Box<Str>>, value<Box<Vec<i32>>>, value<Ref<i32>>, value<Ref<Str>>,
    value<Ref<const Plain>>, value<Rc<i32>>, value<Rc<Str>>, value<Arc<i32>>, value<Arc<Vec<Str>>>, value<Pair<i32, Str>>,
    value<Pair<Pair<bool, char>, Opt<i64>>>, value<Tuple<>>, value<Tuple<i32>>, value<Tuple<i32, Str, f32>>, value<Tuple<Tuple<>, Vec<i32>>>,
    value<Variant<i32, Str>>, value<Variant<Str, Vec<i32>, bool>>, value<Variant<Named<"One", i32>, Named<"Two", i32>>>, value<Named<"N", Str>>,
    value<Vec<Opt<Pair<i32, Str>>>>, value<Map<i32, Map<i32, i32>>>, value<Opt<Box<Queue<Str>>>>, value<Rc<Variant<i32, Str>>>, carray, carray1,
};

// several arguments
template<typename... B> void args(Ev& e, int how, String_View f, const Op& op, long left, std::string& tree, const B&... b) {
    if(left == 0) {
        e.raw("args", tree + "]");
        print(e, how, f, b...);
        return;
    }
    if constexpr(sizeof...(B) < 3) {
        constexpr u64 n = sizeof...(B);
        const char* ts[] = {"t1", "t2", "t3"};
        const char* ss[] = {"s1", "s2", "s3"};
        Rnd r{op.get(ss[n])};
        auto with = [&](auto x) {
            tree += (n ? "," : "") + Mk<Decay<decltype(x)>>::tree(x);
            args(e, how, f, op, left - 1, tree, b..., x);
        };
        switch(op.get(ts[n])) {
        case 0: with(Mk<i32>::make(r)); break;
        case 1: with(Mk<String_View>::make(r)); break;
        case 2: with(Mk<bool>::make(r)); break;
        default: {
            Opt<Vec<i8>> v = Mk<Opt<Vec<i8>>>::make(r);
            tree += (n ? "," : "") + Mk<Opt<Vec<i8>>>::tree(v);
            args(e, how, f, op, left - 1, tree, b..., v);
        }
        }
    }
}

// names of types, described independently
template<typename T> struct Ty;
std::string base(const char* n) {
    return named("base", n) + "}";
}
std::string wrap(const char* k, const char* n, std::vector<std::string> xs) {
    std::string t = named(k, n) + ",\"xs\":[";
    for(size_t i = 0; i < xs.size(); i++) t += (i ? "," : "") + xs[i];
    return t + "]}";
}
#define BASE(T, N)                                                                                                     \
    template<> struct Ty<T> {                                                                                          \
        static std::string d() {                                                                                       \
            return base(N);                                                                                            \
        }                                                                                                              \
    }
BASE(i8, "i8"); BASE(i16, "i16"); BASE(i32, "i32"); BASE(i64, "i64"); BASE(u8, "u8"); BASE(u16, "u16"); BASE(u32, "u32"); BASE(u64, "u64");
BASE(f32, "f32"); BASE(f64, "f64"); BASE(bool, "bool"); BASE(char, "char"); BASE(void, "void"); BASE(String_View, "String_View");
BASE(Plain, "Plain"); BASE(One, "A Named Record"); BASE(E8, "E8"); BASE(Log::Level, "Level"); BASE(Thread::Atomic, "Atomic");
BASE(Nullptr, "null"); BASE(Math::Mat4, "Mat4"); BASE(Math::Quat, "Quat"); BASE(Math::BBox, "BBox");
#define DESC(...)                                                                                                      \
    static std::string d() {                                                                                           \
        return __VA_ARGS__;                                                                                            \
    }
template<typename T> struct Ty<const T> { DESC(wrap("pre", "const", {Ty<T>::d()})) };
template<typename T> struct Ty<volatile T> { DESC(wrap("pre", "volatile", {Ty<T>::d()})) };
template<typename T> struct Ty<const volatile T> { DESC(wrap("pre", "const volatile", {Ty<T>::d()})) };
template<typename T> struct Ty<T&> { DESC(wrap("post", "&", {Ty<T>::d()})) };
template<typename T> struct Ty<T&&> { DESC(wrap("post", "&&", {Ty<T>::d()})) };
template<typename T> struct Ty<T*> { DESC(wrap("post", "*", {Ty<T>::d()})) };
template<typename T, u64 N> struct Ty<T[N]> { DESC(wrap("post", ("[" + std::to_string(N) + "]").c_str(), {Ty<T>::d()})) };
template<typename T, u64 N> struct Ty<Array<T, N>> { DESC(wrap("tmpl", "Array", {Ty<T>::d(), base(std::to_string(N).c_str())})) };
template<> struct Ty<Math::Vec3> { DESC(wrap("tmpl", "Vec3", {base("f32"), base("3")})) };
template<typename T> struct Ty<Vec<T>> { DESC(wrap("tmpl", "Vec", {Ty<T>::d()})) };
template<typename T> struct Ty<Slice<T>> { DESC(wrap("tmpl", "Slice", {Ty<T>::d()})) };
template<typename T> struct Ty<Stack<T>> { DESC(wrap("tmpl", "Stack", {Ty<T>::d()})) };
template<typename T> struct Ty<Queue<T>> { DESC(wrap("tmpl", "Queue", {Ty<T>::d()})) };
template<typename T> struct Ty<Heap<T>> { DESC(wrap("tmpl", "Heap", {Ty<T>::d()})) };
template<typename K, typename V> struct Ty<Map<K, V>> { DESC(wrap("tmpl", "Map", {Ty<K>::d(), Ty<V>::d()})) };
template<typename T> struct Ty<Opt<T>> { DESC(wrap("tmpl", "Opt", {Ty<T>::d()})) };
template<typename T> struct Ty<Box<T>> { DESC(wrap("tmpl", "Box", {Ty<T>::d()})) };
template<typename T> struct Ty<Ref<T>> { DESC(wrap("tmpl", "Ref", {Ty<T>::d()})) };
template<typename T> struct Ty<Rc<T>> { DESC(wrap("tmpl", "Rc", {Ty<T>::d()})) };
template<typename T> struct Ty<Arc<T>> { DESC(wrap("tmpl", "Arc", {Ty<T>::d()})) };
template<typename T> struct Ty<Storage<T>> { DESC(wrap("tmpl", "Storage", {Ty<T>::d()})) };
template<typename A, typename B> struct Ty<Pair<A, B>> { DESC(wrap("tmpl", "Pair", {Ty<A>::d(), Ty<B>::d()})) };
template<typename... Ts> struct Ty<Tuple<Ts...>> { DESC(wrap("tmpl", "Tuple", {Ty<Ts>::d()...})) };
template<typename... Ts> struct Ty<Variant<Ts...>> { DESC(wrap("tmpl", "Variant", {Ty<Ts>::d()...})) };
template<typename R, typename... As> struct Ty<Function<R(As...)>> { DESC(wrap("fun", "", {Ty<R>::d(), Ty<As>::d()...})) };

using Nf = void (*)(Ev&, int);
template<typename T> void name_of(Ev& e, int how) {
    e.raw("d", Ty<T>::d());
    Out o{e};
    if(how == 0) {
        auto s = format_typename<T, A1>();
        o.text(s.view());
    } else if(how == 1) {
        auto s = format_typename<T>();
        o.text(s.view());
    } else {
        Region(R) {
            auto s = format_typename<T, Mregion<R>>();
            o.text(s.view());
        }
    }
}
const Nf names[] = {
    name_of<i8>, name_of<i16>, name_of<i32>, name_of<i64>, name_of<u8>, name_of<u16>, name_of<u32>, name_of<u64>, name_of<f32>, name_of<f64>,
    name_of<bool>, name_of<char>, name_of<String_View>, name_of<Plain>, name_of<One>, name_of<E8>, name_of<Log::Level>, name_of<Thread::Atomic>,
    name_of<Nullptr>, name_of<Math::Vec3>, name_of<Math::Mat4>, name_of<Math::Quat>, name_of<Math::BBox>, name_of<const i32>, name_of<volatile i32>,
    name_of<const volatile i32>, name_of<i32&>, name_of<i32&&>, name_of<const i32&>, name_of<volatile i32&&>, name_of<i32*>, name_of<const i32*>,
    name_of<i32**>, name_of<i32*&>, name_of<i32[2]>, name_of<Array<i32, 3>>, name_of<Vec<i32>>, name_of<Vec<Vec<bool>>>, name_of<Slice<const i32>>,
    name_of<Stack<i32>>, name_of<Queue<i32>>, name_of<Heap<i32>>, name_of<Map<i32, String_View>>, name_of<Map<i32, Vec<Opt<bool>>>>, name_of<Opt<i32>>,
    name_of<Box<i32>>, name_of<Ref<i32>>, name_of<Rc<i32>>, name_of<Arc<i32>>, name_of<Storage<Plain>>, name_of<Pair<i32, f32>>, name_of<Tuple<>>,
    name_of<Tuple<i32>>, name_of<Tuple<i32, bool, Vec<i32>>>, name_of<Variant<i32, f32>>, name_of<Function<void()>>, name_of<Function<i32(u64)>>,
    name_of<Function<void(i32, String_View, bool)>>, name_of<Function<Function<void()>(const Vec<i32>&)>>, name_of<Array<const Slice<volatile i32>&, 1>>,
};

const unsigned char ptab[16] = {' ', '\t', '\n', '\r', '\v', '\f', '+', '-', '0', '7', 'a', '.', 'b', 0, 255, '5'};
const char ftab[10] = {'%', 'a', ' ', '{', '}', 'd', 's', '\\', '"', 'n'};

struct Run {
    std::string in; // input of a parse
    std::string coded(const Op& op, bool fmt) {
        std::string t;
        long c = op.get("code");
        for(long i = 0; i < op.get("n"); i++, c /= 16) t += fmt ? ftab[(c % 16) % 10] : (char)ptab[c % 16];
        return t;
    }
    std::vector<long> num; // value expected of a number with a fraction, over 64
    std::string input(const Op& op) {
        Rnd r{op.get("s") * 5 + op.get("g")};
        std::string tail = coded(op, false), t;
        num.clear();
        for(long i = r.pick(3); i > 0; i--) t += " \t\n\r\v"[r.pick(5)];
        switch(op.get("g")) {
        case 0: return tail;
        case 1: // the printed form of an integer
            return t + [&] {
                auto s = format<Mdefault>("%"_v, Mk<i64>::make(r));
                return std::string((const char*)s.data(), s.length());
            }() + tail;
        case 2: { // many digits
            if(r.pick(2)) t += "+-"[r.pick(2)];
            for(long i = 1 + r.pick(25); i > 0; i--) t += (char)('0' + r.pick(10) * r.pick(2));
            return t + tail;
        }
        case 3: { // around the extremes
            __int128 v = ((__int128)1 << 63) + r.pick(5) - 2;
            if(r.pick(2)) t += "-";
            std::string d;
            for(; v; v /= 10) d = (char)('0' + (int)(v % 10)) + d;
            return t + d + tail;
        }
        case 4: // words and enumerators
            return t + e8[r.pick(7)].second + (r.pick(2) ? " " : "") + e8[r.pick(7)].second + (r.pick(2) ? " " : "") + tail;
        default: { // the printed form of a number with a fraction
            long k = r.pick(1 << 20) - (1 << 19);
            auto s = format<Mdefault>("%"_v, (f32)k / 64.0f);
            if(tail.empty() || (tail[0] != '0' && tail[0] != '7' && tail[0] != '5')) num = {k};
            return t + std::string((const char*)s.data(), s.length()) + tail;
        }
        }
    }
    struct Exact {
        u8* p;
        u64 n;
        explicit Exact(const std::string& s) : n(s.size()) {
            p = n ? (u8*)malloc(n) : nullptr;
            if(n) memcpy(p, s.data(), n);
        }
        ~Exact() {
            ::free(p);
        }
        String_View v() const {
            return String_View{p, n};
        }
        // a result must lie inside the input
        std::string got(String_View s) const {
            if(s.length() && (s.data() < p || s.data() + s.length() > p + n)) tok_err("a result that is not part of the input");
            return std::string((const char*)s.data(), s.length());
        }
    };
    template<typename P, typename F> void parsed(Ev& e, const Exact& x, P&& p, F&& put) {
        e.boolean("ok", p.ok());
        if(p.ok()) {
            put(p->first);
            e.str("rest", x.got(p->second));
        }
    }
    void go(const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            const Op& op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            Ev e, h;
            h.head(op, "ok");
            e = h;
            long blocks = g_blocks;
            int how = (int)((op.get("s") + op.get("s1") + op.get("code") + op.get("t") + (long)i) % 3);
            if(n == "reset" || n == "end") {
                e.str("vt", "\v");
            } else if(n == "fmt") {
                std::string f = coded(op, true), tree = "[";
                e.str("f", f);
                args(e, how, String_View{(const u8*)f.data(), f.size()}, op, op.get("k"), tree);
            } else if(n == "val") {
                Rnd r{op.get("s")};
                values[op.get("t")](e, how, r);
                blocks = g_blocks;
            } else if(n == "tn") {
                names[op.get("t")](e, how);
            } else if(n == "cat") {
                std::string sep = coded(op, true);
                e.str("sep", sep);
                String_View sv{(const u8*)sep.data(), sep.size()};
                Rnd r{op.get("s")};
                std::string xs = "[", t[4];
                String_View v[4];
                for(int k = 0; k < op.get("k"); k++) {
                    if(op.get("s") >= 4) t[k] = text(r);
                    else t[k] = std::string((size_t)((op.get("s") >> (k & 1)) & 1), (char)('u' + k));
                    xs += (k ? "," : "") + q(t[k]);
                    v[k] = String_View{(const u8*)t[k].data(), t[k].size()};
                }
                e.raw("xs", xs + "]");
                Out o{e};
                auto show = [&](auto s) { o.text(s.view()); };
                switch(op.get("k")) {
                case 0: show(concat<A1>(sv)); break;
                case 1: show(concat<A1>(sv, rpp::move(v[0]))); break;
                case 2: show(concat<A1>(sv, rpp::move(v[0]), v[1].string<Mdefault>())); break;
                case 3: show(concat<Mdefault>(sv, rpp::move(v[0]), rpp::move(v[1]), rpp::move(v[2]))); break;
                default: show(concat<A1>(sv, v[0].string<A1>(), rpp::move(v[1]), rpp::move(v[2]), v[3].string<A1>())); break;
                }
            } else if(n == "en") {
                Literal l = Format::enum_name((E8)op.get("v"));
                e.str("r", l.c_string);
            } else {
                in = input(op);
                e.str("inp", in);
                Exact x{in};
                if(n == "pi")
                    parsed(e, x, Format::parse_i64(x.v()), [&](i64 v) { e.str("v", std::to_string(v)); });
                else if(n == "pf") {
                    std::vector<long> want = num;
                    e.nums("num", want);
                    parsed(e, x, Format::parse_f32(x.v()), [&](f32 v) {
                        double d = (double)v * 64;
                        e.num("v", d == (double)(long)d && fabs(d) < 1e9 ? (long)d : 2000000000);
                    });
                } else if(n == "ps")
                    parsed(e, x, Format::parse_string(x.v()), [&](String_View v) { e.str("v", x.got(v)); });
                else if(n == "pe")
                    parsed(e, x, Format::parse_enum<E8>(x.v()), [&](E8 v) { e.num("v", (long)v); });
                else if(n == "sk")
                    e.str("v", x.got(Format::skip_whitespace(x.v())));
                else
                    _exit(98);
            }
            if(g_blocks != blocks) tok_err("a block was not given back");
            e.num("err", g_err);
            emit(e);
        }
    }
};
} // namespace
int main(int argc, char** argv) {
    if(argc == 2 && !strcmp(argv[1], "--sizes")) {
        printf("%zu %zu\n", sizeof values / sizeof values[0], sizeof names / sizeof names[0]);
        return 0;
    }
    return drive(argc, argv, [](const Script& sc) {
        auto* r = new Run;
        r->go(sc);
    });
}
