// Conformance driver for vectors, matrices, quaternions and boxes (C25).
#include "common.h"
#include <math.h>
#include <rpp/vmath.h>
#include <utility>
using namespace rpp;
using namespace drv;

namespace {
using L = std::vector<long>;
constexpr long Odd = 1999999999; // not a whole number, or the ways to the result disagree
template<typename T> void put(L& r, T v) {
    double d = (double)v;
    r.push_back(d == ::floor(d) && ::fabs(d) < 1e9 ? (long)d : Odd);
}
template<typename T> void scaled(L& r, T v) {
    double d = (double)v * 1000.0;
    r.push_back(::fabs(d) < 1.9e9 ? lround(d) : Odd);
}
template<typename V> void puts_(L& r, const V& v, u64 n) {
    for(u64 i = 0; i < n; i++) put(r, v[i]);
}
template<typename V> void scales(L& r, const V& v, u64 n) {
    for(u64 i = 0; i < n; i++) scaled(r, v[i]);
}
long arg(const Op& op, char c, u64 i) {
    char k[4] = {c, 0, 0, 0};
    if(i >= 10)
        k[1] = '1', k[2] = (char)('0' + i - 10);
    else
        k[1] = (char)('0' + i);
    return op.get(k);
}
template<typename T, u64 N> Math::Vect<T, N> vec(const Op& op, char c, T den = T{1}) {
    Math::Vect<T, N> v;
    for(u64 i = 0; i < N; i++) v[i] = (T)arg(op, c, i + 1) / den;
    return v;
}
Vec3 v3(const Op& op, char c) { return vec<f32, 3>(op, c); }
Vec4 v4(const Op& op, char c) { return vec<f32, 4>(op, c); }
Quat quat(const Op& op, char c, f32 den = 1.0f) {
    return Quat{(f32)arg(op, c, 1) / den, (f32)arg(op, c, 2) / den, (f32)arg(op, c, 3) / den, (f32)arg(op, c, 4) / den};
}
template<u64... I> Mat4 mat_(const Op& op, char c, std::index_sequence<I...>) { return Mat4{(f32)arg(op, c, I + 1)...}; }
Mat4 mat(const Op& op, char c) { return mat_(op, c, std::make_index_sequence<16>{}); }
Mat4 cols(const Op& op, char c) {
    Vec4 v[4];
    for(u64 i = 0; i < 4; i++)
        for(u64 j = 0; j < 4; j++) v[i][j] = (f32)arg(op, c, 4 * i + j + 1);
    return Mat4{v[0], v[1], v[2], v[3]};
}
void puts_(L& r, const Mat4& m) {
    for(u64 i = 0; i < 4; i++)
        for(u64 j = 0; j < 4; j++) put(r, m[i][j]);
}
void scales(L& r, const Mat4& m) {
    for(u64 i = 0; i < 4; i++)
        for(u64 j = 0; j < 4; j++) scaled(r, m[i][j]);
}
template<typename T> struct Watch {
    const T& t;
    unsigned char b[sizeof(T)];
    Watch(const T& t) : t(t) { memcpy(b, &t, sizeof(T)); }
    bool kept() const { return !memcmp(b, &t, sizeof(T)); }
};
template<typename V> bool alike(const V& a, const V& b, u64 n) {
    for(u64 i = 0; i < n; i++)
        if(!(a[i] == b[i])) return false;
    return true;
}
template<typename F> f64 apply(F f, bool wide, f64 x) { return wide ? (f64)f(x) : (f64)f((f32)x); }

template<typename T, u64 N, u64... I> Math::Vect<T, N> listed(const T* a, std::index_sequence<I...>) { return Math::Vect<T, N>{a[I]...}; }

template<typename T, u64 N> bool of(const Op& op, L& r) {
    using V = Math::Vect<T, N>;
    const std::string& n = op.name;
    constexpr bool flt = std::is_floating_point_v<T>;
    constexpr bool pack = std::is_same_v<T, f32> && N == 4;
    V a = vec<T, N>(op, 'a'), b = vec<T, N>(op, 'b'), c = vec<T, N>(op, 'c');
    T s = (T)op.get("s");
    long f = op.get("f");
    Watch<V> wa(a), wb(b), wc(c);
    auto kept = [&] { return wa.kept() && wb.kept() && wc.kept(); };
    bool ok = true;
    auto simd = [&](SIMD::F32x4 p, const auto& v) {
        for(u64 i = 0; i < 4; i++)
            if(!(p.data[i] == v[i])) r.push_back(Odd);
    };
    auto pk = [](const V& v) { return SIMD::F32x4::set((f32)v[0], (f32)v[1], (f32)v[2], (f32)v[N - 1]); };
    auto bin = [&](auto go, auto assign, auto simd_op) {
        V v, u = a;
        if(f == 0)
            v = go(a, b);
        else if(f == 1) {
            v = assign(u, b);
            if(!alike(u, v, N)) r.push_back(Odd);
        } else if(f == 2)
            v = go(a, s);
        else if(f == 3) {
            v = assign(u, s);
            if(!alike(u, v, N)) r.push_back(Odd);
        } else
            v = go(s, a);
        if constexpr(pack) {
            if(f == 0) simd(simd_op(pk(a), pk(b)), v);
            if(f == 2) simd(simd_op(pk(a), SIMD::F32x4::set1(s)), v);
        }
        if(n != "over") return puts_(r, v, N);
        if constexpr(flt)
            scales(r, v, N);
        else
            for(u64 i = 0; i < N; i++) put(r, (f64)v[i] * 1000.0);
    };
    using F = SIMD::F32x4;
    if(n == "plus") return bin([](auto x, auto y) { return x + y; }, [](V& x, auto y) { return x += y; }, F::add), kept();
    if(n == "minus") return bin([](auto x, auto y) { return x - y; }, [](V& x, auto y) { return x -= y; }, F::sub), kept();
    if(n == "times") return bin([](auto x, auto y) { return x * y; }, [](V& x, auto y) { return x *= y; }, F::mul), kept();
    if(n == "over") return bin([](auto x, auto y) { return x / y; }, [](V& x, auto y) { return x /= y; }, F::div), kept();
    if constexpr(!std::is_unsigned_v<T>) {
        if(n == "neg") return puts_(r, -a, N), kept();
        if(n == "abs") {
            V v = a.abs();
            if(!alike(v, Math::abs(a), N)) r.push_back(Odd);
            if constexpr(pack) simd(F::abs(pk(a)), v);
            return puts_(r, v, N), kept();
        }
    }
    if(n == "eq") {
        if constexpr(pack)
            if(F::cmpeq_all(pk(a), pk(b)) != (a == b)) r.push_back(Odd);
        return put(r, a == b), put(r, a != b), kept();
    }
    if(n == "norm2") return put(r, a.norm2()), kept();
    if(n == "mins") return put(r, a.min()), kept();
    if(n == "maxs") return put(r, a.max()), kept();
    if(n == "min" || n == "max") {
        V v = n == "min" ? Math::min(a, b) : Math::max(a, b);
        if constexpr(pack) simd(n == "min" ? F::min(pk(a), pk(b)) : F::max(pk(a), pk(b)), v);
        return puts_(r, v, N), kept();
    }
    if(n == "dot") {
        T v = Math::dot(a, b);
        if constexpr(pack)
            if(F::dp(pk(a), pk(b)) != v) r.push_back(Odd);
        return put(r, v), kept();
    }
    if(n == "clamp") return puts_(r, Math::clamp(a, b, c), N), kept();
    if constexpr(flt) {
        if(n == "lerp") return puts_(r, Math::lerp(a, b, s / 4) * (T)4, N), kept();
        if(n == "norm") return scaled(r, a.norm()), kept();
        if(n == "unit") {
            V v = a.unit(), u = a, w = u.normalize();
            if(!alike(v, Math::normalize(a), N) || !alike(u, v, N) || !alike(w, v, N)) r.push_back(Odd);
            return scales(r, v, N), kept();
        }
        if(n == "floor" || n == "ceil") {
            V q = vec<T, N>(op, 'a', (T)4);
            Watch<V> wq(q);
            V v = n == "floor" ? q.floor() : q.ceil();
            if constexpr(pack) simd(n == "floor" ? F::floor(pk(q)) : F::ceil(pk(q)), v);
            return puts_(r, v, N), wq.kept();
        }
        if constexpr(N > 2)
            if(n == "proj") return scales(r, a.proj(), N - 1), kept();
    }
    if(n == "as") {
        auto x = a.template as<i64>();
        auto y = a.template as<f64>();
        auto z = a.template as<f32>();
        for(u64 i = 0; i < N; i++)
            if((f64)x[i] != y[i] || (f64)z[i] != y[i]) r.push_back(Odd);
        return puts_(r, y, N), kept();
    }
    if(n == "make") {
        alignas(16) unsigned char mem[sizeof(V)];
        memset(mem, 0xAB, sizeof mem);
        V* d = new(mem) V;
        puts_(r, *d, N);
        memset(mem, 0xAB, sizeof mem);
        puts_(r, *new(mem) V(s), N);
        T e[N];
        for(u64 i = 0; i < N; i++) e[i] = a[i];
        V l = listed<T, N>(e, std::make_index_sequence<N>{});
        puts_(r, l, N);
        const V k = a;
        for(const T& x : k) put(r, x);
        V m;
        u64 j = 0;
        for(T& x : m) x = e[j++];
        if(j != N) r.push_back(Odd);
        if constexpr(N > 2) {
            Math::Vect<T, N - 1> g;
            for(u64 i = 0; i + 1 < N; i++) g[i] = e[i];
            if(!alike(V(g, e[N - 1]), m, N)) r.push_back(Odd);
        }
        if constexpr(pack) {
            simd(l.pack, l);
            if(!alike(V(F::set(e[0], e[1], e[2], e[3])), l, N)) r.push_back(Odd);
            if(!alike(V(F::zero()), V{}, N) || !alike(V(F::one()), V(1.0f), N) || !alike(V(F::set1(s)), V(s), N)) r.push_back(Odd);
        }
        puts_(r, m, N);
        return ok && kept();
    }
    if(n == "parts") {
        const V k = a;
        V m = a;
        auto two = [&](const auto& x, auto& y, u64 d) {
            for(u64 i = 0; i < d; i++) put(r, x[i]);
            if(!alike(x, y, d)) r.push_back(Odd);
            for(u64 i = 0; i < d; i++) {
                T* p = &y[i];
                if((unsigned char*)p < (unsigned char*)&m || (unsigned char*)p >= (unsigned char*)(&m + 1)) r.push_back(Odd);
            }
        };
        if constexpr(N == 3) two(k.xy(), m.xy(), 2), two(k.yz(), m.yz(), 2);
        if constexpr(N == 4) two(k.xy(), m.xy(), 2), two(k.yz(), m.yz(), 2), two(k.zw(), m.zw(), 2), two(k.xyz(), m.xyz(), 3), two(k.yzw(), m.yzw(), 3);
        if constexpr(N == 3) {
            if(k.x != a[0] || k.y != a[1] || k.z != a[2]) r.push_back(Odd);
        }
        if constexpr(N == 4) {
            if(k.x != a[0] || k.y != a[1] || k.z != a[2] || k.w != a[3]) r.push_back(Odd);
        }
        return kept();
    }
    if constexpr(std::is_same_v<T, f32> && N == 3)
        if(n == "cross") return puts_(r, Math::cross(a, b), 3), kept();
    fprintf(stderr, "unknown op %s\n", n.c_str());
    _exit(98);
}
// from thirty degree steps, in double precision
void product(const f64* a, const f64* b, f64* o) {
    for(int c = 0; c < 4; c++)
        for(int w = 0; w < 4; w++) {
            o[4 * c + w] = 0;
            for(int k = 0; k < 4; k++) o[4 * c + w] += a[4 * k + w] * b[4 * c + k];
        }
}
void euler(f64 x, f64 y, f64 z, f64* o) {
    x *= M_PI / 180, y *= M_PI / 180, z *= M_PI / 180;
    f64 X[16] = {1, 0, 0, 0, 0, cos(x), sin(x), 0, 0, -sin(x), cos(x), 0, 0, 0, 0, 1};
    f64 Y[16] = {cos(y), 0, -sin(y), 0, 0, 1, 0, 0, sin(y), 0, cos(y), 0, 0, 0, 0, 1};
    f64 Z[16] = {cos(z), sin(z), 0, 0, -sin(z), cos(z), 0, 0, 0, 0, 1, 0, 0, 0, 0, 1};
    f64 t[16];
    product(Y, X, t);
    product(Z, t, o);
}
bool matrix(const Op& op, L& r) {
    const std::string& n = op.name;
    Mat4 m = mat(op, 'm'), k = mat(op, 'n');
    Watch<Mat4> wm(m), wk(k);
    f32 s = (f32)op.get("s");
    Vec3 a = v3(op, 'a'), b = v3(op, 'b'), c = v3(op, 'c');
    auto kept = [&] { return wm.kept() && wk.kept(); };
    if(n == "madd") return puts_(r, m + k), puts_(r, m + s), kept();
    if(n == "msub") return puts_(r, m - k), puts_(r, m - s), kept();
    if(n == "mmul") return puts_(r, m * k), kept();
    if(n == "mscal") return puts_(r, m * s), kept();
    if(n == "mdiv") return scales(r, m / s), kept();
    if(n == "mvec") return puts_(r, m * v4(op, 'a'), 4), kept();
    if(n == "mpoint") return puts_(r, m * a, 3), kept();
    if(n == "mdir") return puts_(r, m.rotate(a), 3), kept();
    if(n == "mt") {
        if(m.T() != Mat4::transpose(m)) r.push_back(Odd);
        return puts_(r, m.T()), kept();
    }
    if(n == "minv") {
        Mat4 x = m.inverse(), y = Mat4::inverse(m);
        if(x != y) r.push_back(Odd);
        return scales(r, x), kept();
    }
    if(n == "meq") return put(r, m == k), put(r, m != k), kept();
    if(n == "mconst") {
        Mat4 y = cols(op, 'm');
        puts_(r, Mat4::I), puts_(r, Mat4{}), puts_(r, Mat4::zero), puts_(r, Mat4::swap_x_z), puts_(r, y);
        const Mat4 z = m;
        for(const Vec4& v : z) puts_(r, v, 4);
        u64 i = 0;
        for(Vec4& v : y) {
            if(v != z[i] || y[i] != v) r.push_back(Odd);
            i++;
        }
        return i == 4 && kept();
    }
    if(n == "mscale") return puts_(r, Mat4::scale(a)), true;
    if(n == "mtrans") return puts_(r, Mat4::translate(a)), true;
    if(n == "mortho") return scales(r, Mat4::ortho((f32)op.get("l"), (f32)op.get("r"), (f32)op.get("b"), (f32)op.get("t"), (f32)op.get("n"), (f32)op.get("f"))), true;
    if(n == "mproj") return scales(r, Mat4::proj(90.0f, (f32)op.get("r"), (f32)op.get("n"))), true;
    if(n == "mlook") return scales(r, Mat4::look_at(a, b, c)), true;
    if(n == "mturn") return scales(r, Mat4::rotate(30.0f * s, a)), true;
    if(n == "mytow") return scales(r, Mat4::rotate_y_to(a)), true;
    if(n == "mztow") return scales(r, Mat4::rotate_z_to(a)), true;
    if(n == "meuler") {
        f64 o[16];
        euler(30.0 * op.get("x"), 30.0 * op.get("y"), 30.0 * op.get("z"), o);
        Mat4 t;
        for(u64 i = 0; i < 16; i++) t[i / 4][i % 4] = (f32)o[i];
        Vec3 e = t.to_euler();
        euler(e.x, e.y, e.z, o);
        return scales(r, o, 16), true;
    }
    fprintf(stderr, "unknown op %s\n", n.c_str());
    _exit(98);
}
bool quaternion(const Op& op, L& r) {
    const std::string& n = op.name;
    Quat a = quat(op, 'a'), b = quat(op, 'b');
    Watch<Quat> wa(a), wb(b);
    f32 s = (f32)op.get("s");
    auto kept = [&] { return wa.kept() && wb.kept(); };
    Vec3 ang = Vec3{30.0f * op.get("x"), 30.0f * op.get("y"), 30.0f * op.get("z")};
    if(n == "qmul") return puts_(r, a * b, 4), kept();
    if(n == "qadd") return puts_(r, a + b, 4), kept();
    if(n == "qsub") return puts_(r, a - b, 4), kept();
    if(n == "qneg") return puts_(r, -a, 4), kept();
    if(n == "qscal") return puts_(r, a * s, 4), kept();
    if(n == "qconj") {
        puts_(r, a.conjugate(), 4);
        puts_(r, a.complex(), 3);
        put(r, a.real());
        if(Quat{v4(op, 'a')} != a || Quat{a.complex(), a.real()} != a) r.push_back(Odd);
        Quat w;
        u64 i = 0;
        for(f32& x : w) x = a[(int)i++];
        const Quat k = w;
        i = 0;
        for(const f32& x : k)
            if(x != a[(int)i++]) r.push_back(Odd);
        return puts_(r, Quat{}, 4), kept();
    }
    if(n == "qinv") return scales(r, a.inverse(), 4), kept();
    if(n == "qnorm") return put(r, a.norm2()), scaled(r, a.norm()), kept();
    if(n == "qunit") return scales(r, a.unit(), 4), kept();
    if(n == "qeq") return put(r, a == b), put(r, a != b), kept();
    if(n == "qmat") return puts_(r, quat(op, 'a', 2.0f).to_mat()), true;
    if(n == "qrot") return puts_(r, quat(op, 'a', 2.0f).rotate(v3(op, 'b')), 3), true;
    if(n == "qaxis") return scales(r, Quat::axis_angle(v3(op, 'a'), 30.0f * s).to_mat()), true;
    if(n == "qeuler") return scales(r, Quat::euler(ang).to_mat()), true;
    if(n == "qback") {
        Vec3 e = Quat::euler(ang).to_euler();
        f64 o[16];
        euler(e.x, e.y, e.z, o);
        return scales(r, o, 16), true;
    }
    fprintf(stderr, "unknown op %s\n", n.c_str());
    _exit(98);
}
template<typename T> bool scalar(const Op& op, L& r) {
    const std::string& n = op.name;
    T x = (T)op.get("x"), y = (T)op.get("y"), z = (T)op.get("z");
    constexpr bool wide = std::is_same_v<T, f64>;
    if(n == "slerp") return put(r, Math::lerp(x, y, z / 4) * 4), true;
    if(n == "sfrac") return put(r, Math::frac((f32)(x / 4)) * 4), true;
    if(n == "ssmooth") return scaled(r, Math::smoothstep((f32)x, (f32)y, (f32)z)), true;
    if(n == "ssign") return put(r, Math::sign(x)), put(r, Math::abs(x)), true;
    if(n == "sround") return put(r, Math::floor(x / 4)), put(r, Math::ceil(x / 4)), put(r, Math::round(x / 4)), true;
    if(n == "sroot") return scaled(r, Math::sqrt(x)), true;
    if(n == "srad") return r.push_back(lround((f64)Math::radians(180 * x) * (wide ? 1e8 : 1e3))), r.push_back(lround((f64)Math::degrees((wide ? (T)Math::PI64 : (T)Math::PI32) * x) * (wide ? 1e6 : 1e2))), true;
    if(n == "sminmax") return put(r, Math::min(x, y)), put(r, Math::max(x, y)), put(r, Math::min({x, y, z})), put(r, Math::max({x, y, z})), true;
    if(n == "scos") {
        T v = (T)(x * 30 * (T)(M_PI / 180));
        return scaled(r, Math::cos(v)), scaled(r, Math::sin(v)), scaled(r, ::fabs((f64)Math::tan(v)) > 1e5 ? 0 : Math::tan(v)), true;
    }
    if(n == "satan") return r.push_back(lround((f64)Math::atan2(y, x) * 180 / M_PI * 1000)), true;
    if(n == "sarc") return r.push_back(lround((f64)Math::acos(x / 2) * 180 / M_PI * 1000)), r.push_back(lround((f64)Math::asin(x / 2) * 180 / M_PI * 1000)), r.push_back(lround((f64)Math::atan(y) * 180 / M_PI * 1000)), true;
    if(n == "sexp") return scaled(r, Math::exp(x)), true;
    if(n == "shypot") return scaled(r, Math::hypot(x, y)), true;
    if(n == "spow") return r.push_back(lround((f64)Math::pow(x, y))), true;
    if(n == "sclamp") return put(r, Math::clamp(x, y, z)), true;
    fprintf(stderr, "unknown op %s\n", n.c_str());
    _exit(98);
}
BBox span(const Op& op) {
    Vec3 a = v3(op, 'a'), b = v3(op, 'b');
    Vec3 lo, hi;
    for(u64 i = 0; i < 3; i++) lo[i] = a[i] < b[i] ? a[i] : b[i], hi[i] = a[i] < b[i] ? b[i] : a[i];
    return BBox{lo, hi};
}
bool boxes(const Op& op, L& r, BBox& box) {
    const std::string& n = op.name;
    L tail;
    if(n == "bnew") {
        if(op.get("s") % 2)
            box.reset();
        else
            box = BBox{};
    } else if(n == "bset")
        box = span(op);
    else if(n == "bpoint")
        box.enclose(v3(op, 'a'));
    else if(n == "bbox")
        box.enclose(op.get("s") ? span(op) : BBox{});
    else if(n == "bimage")
        box.transform(mat(op, 'm'));
    else if(n == "bscreen") {
        Vec2 lo, hi;
        const BBox k = box;
        k.project(mat(op, 'm'), lo, hi);
        puts_(tail, lo, 2), puts_(tail, hi, 2);
    } else {
        fprintf(stderr, "unknown op %s\n", n.c_str());
        _exit(98);
    }
    put(r, box.empty());
    put(r, box.surface_area());
    if(!box.empty()) {
        puts_(r, box.min, 3), puts_(r, box.max, 3);
        puts_(r, box.center() * 2.0f, 3);
    }
    r.insert(r.end(), tail.begin(), tail.end());
    return true;
}
} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        BBox box;
        for(size_t i = 0; i < sc.size(); i++) {
            const Op& op = sc[i];
            begin_op((long)i);
            L r;
            bool same = true;
            const std::string& n = op.name;
            auto in = [&](std::initializer_list<const char*> l) {
                for(auto* s : l)
                    if(n == s) return true;
                return false;
            };
            if(n == "reset" || n == "end")
                box = BBox{};
            else if(in({"bnew", "bset", "bpoint", "bbox", "bimage", "bscreen"}))
                same = boxes(op, r, box);
            else if(n[0] == 'q')
                same = quaternion(op, r);
            else if(n[0] == 's')
                same = op.get("s") ? scalar<f64>(op, r) : scalar<f32>(op, r);
            else if(in({"madd", "msub", "mmul", "mscal", "mdiv", "mvec", "mpoint", "mdir", "mt", "minv", "meq", "mconst", "mscale", "mtrans", "mortho", "mproj", "mlook", "mturn", "mytow", "mztow", "meuler"}))
                same = matrix(op, r);
            else switch(op.get("t")) {
                case 1: same = of<f32, 2>(op, r); break;
                case 2: same = of<f32, 3>(op, r); break;
                case 3: same = of<f32, 4>(op, r); break;
                case 4: same = of<f32, 5>(op, r); break;
                case 5: same = of<f64, 3>(op, r); break;
                case 6: same = of<f64, 4>(op, r); break;
                case 7: same = of<i32, 3>(op, r); break;
                case 8: same = of<i32, 4>(op, r); break;
                case 9: same = of<u32, 2>(op, r); break;
                case 10: same = of<u32, 4>(op, r); break;
                case 11: same = of<i64, 2>(op, r); break;
                default: _exit(98);
                }
            Ev e;
            e.head(op, "ok");
            e.nums("res", r);
            e.num("same", same);
            emit(e);
        }
    });
}
