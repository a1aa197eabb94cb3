// Conformance driver for random streams (C22).
#include "common.h"
#include <rpp/rng.h>
using namespace rpp;
using namespace drv;

namespace {
using RNG::Stream;
constexpr long count = 1200;
u64 seed_of(long s) {
    const u64 v[] = {0, 0, 1, 2, ~0ull, 1ull << 63, 3, 42, 0xffffffffull, 1ull << 32, 12345678901234567ull, 1000, 0x8000000080000000ull};
    return v[s];
}
using L = std::vector<long>;
L limbs(u64 x) {
    return {(long)(x >> 48), (long)(x >> 32 & 0xffff), (long)(x >> 16 & 0xffff), (long)(x & 0xffff)};
}
// order preserving
template<typename I> L show(I v) {
    if constexpr(std::is_signed_v<I>) {
        using U = std::make_unsigned_t<I>;
        return limbs((u64)(U)((U)v ^ ((U)1 << (sizeof(I) * 8 - 1))));
    } else
        return limbs((u64)v);
}
template<typename I> I value(const Op& op, const char c) {
    u64 x = 0;
    for(int i = 1; i <= 4; i++) {
        char k[3] = {c, (char)('0' + i), 0};
        x = x << 16 | (u64)op.get(k);
    }
    if constexpr(std::is_signed_v<I>) {
        using U = std::make_unsigned_t<I>;
        return (I)(U)((U)x ^ (U)((U)1 << (sizeof(I) * 8 - 1)));
    } else
        return (I)x;
}
template<typename F> auto with(long t, F&& f) {
    switch(t) {
    case 1: return f((u8)0);
    case 2: return f((u16)0);
    case 3: return f((u32)0);
    case 4: return f((u64)0);
    case 5: return f((i8)0);
    case 6: return f((i16)0);
    case 7: return f((i32)0);
    default: return f((i64)0);
    }
}
template<typename F> L unit(Stream& s, long parts) {
    F v = s.template unit<F>();
    long part = v >= 0 && v < 1 ? (long)((double)v * (double)parts) : 0;
    return {!(v >= 0), !(v < 1), part};
}
template<typename F> bool coin(Stream& s, long a) {
    return s.template coin_flip<F>((F)a / 16);
}
template<typename T> L shuffled(Stream& s, long n) {
    Vec<T> v;
    for(long i = 1; i <= n; i++) v.push(T{(int)i});
    s.shuffle(v);
    L r;
    for(auto& x : v) {
        if constexpr(std::is_same_v<T, int>) r.push_back(x);
        else r.push_back(x.value());
    }
    return r;
}
struct Run {
    Stream st[5] = {Stream{seed_of(12)}, Stream{seed_of(12)}, Stream{seed_of(12)}, Stream{seed_of(12)}, Stream{seed_of(12)}};
    void go(const Script& sc) {
        for(size_t k = 0; k < sc.size(); k++) {
            const Op& op = sc[k];
            begin_op((long)k);
            const std::string& n = op.name;
            long i = op.get("i"), t = op.get("t"), m = op.get("n");
            Ev e;
            e.head(op, "ok");
            L res;
            if(n == "seed") {
                if(k % 2) st[i].seed(seed_of(op.get("s")));
                else st[i] = Stream{seed_of(op.get("s"))};
            } else if(n == "fresh") {
                if(k % 2) st[i].seed();
                else st[i] = Stream{};
            } else if(n == "copy") {
                st[i] = st[op.get("j")];
            } else if(n == "draw") {
                res = limbs(st[i]());
            } else if(n == "integer") {
                res = with(t, [&](auto z) { return show(st[i].integer<decltype(z)>()); });
            } else if(n == "range") {
                res = with(t, [&](auto z) {
                    using I = decltype(z);
                    return show(st[i].range(value<I>(op, 'a'), value<I>(op, 'b')));
                });
            } else if(n == "unit") {
                res = t == 1 ? unit<f32>(st[i], 4096) : unit<f64>(st[i], 4096);
            } else if(n == "coin") {
                res = {t == 1 ? coin<f32>(st[i], m) : coin<f64>(st[i], m)};
            } else if(n == "shuffle") {
                res = t == 1 ? shuffled<int>(st[i], m) : shuffled<TokM>(st[i], m);
                e.num("live", g_live);
                e.num("err", g_err);
            } else if(n == "hist") {
                Stream s{seed_of(op.get("s"))};
                res.assign((size_t)m, 0);
                for(long c = 0; c < count; c++)
                    with(t, [&](auto z) {
                        using I = decltype(z);
                        I lo = (I)(std::is_signed_v<I> ? -3 : 3);
                        long v = (long)s.range(lo, (I)(lo + m)) - (long)lo;
                        if(v >= 0 && v < m) res[(size_t)v]++;
                        return 0;
                    });
            } else if(n == "uhist") {
                Stream s{seed_of(op.get("s"))};
                res.assign((size_t)m, 0);
                for(long c = 0; c < count; c++) {
                    L v = t == 1 ? unit<f32>(s, m) : unit<f64>(s, m);
                    if(!v[0] && !v[1]) res[(size_t)v[2]]++;
                }
            } else if(n == "chist") {
                Stream s{seed_of(op.get("s"))};
                res = {0};
                for(long c = 0; c < count; c++) res[0] += t == 1 ? coin<f32>(s, m) : coin<f64>(s, m);
            } else if(n == "phist") {
                Stream s{seed_of(op.get("s"))};
                std::map<L, long> h;
                for(long c = 0; c < count; c++) h[shuffled<int>(s, m)]++;
                size_t all = m == 2 ? 2 : m == 3 ? 6 : 24;
                for(auto& p : h) res.push_back(p.second);
                while(res.size() < all) res.push_back(0);
            } else if(n == "neigh") {
                // seeds next to each other
                Stream a{seed_of(op.get("s"))}, b{seed_of(op.get("s")) + 1};
                res = {0};
                for(long c = 0; c < 100; c++) res[0] += a() == b();
            } else if(n == "extreme") {
                // so many draws that the least and the greatest come up
                Stream a{seed_of(op.get("s"))};
                res = {0};
                for(long c = 0; c < 1l << 27; c++) {
                    if(m == 0) {
                        f32 v = a.unit<f32>();
                        res[0] += !(v >= 0.0f && v < 1.0f);
                    } else if(m == 1)
                        res[0] += a.coin_flip(0.0f);
                    else
                        res[0] += !a.coin_flip(1.0f);
                }
            } else if(n == "distinct") {
                Stream a{seed_of(op.get("s"))};
                std::map<u64, long> h;
                res = {0};
                for(long c = 0; c < 500; c++) res[0] += h[a()]++ > 0;
            } else if(n == "digest") {
                Stream a{seed_of(op.get("s"))};
                u64 h = 1;
                auto mix = [&](u64 x) { h = (h ^ x) * 0x100000001B3ull; };
                for(long c = 0; c < 60; c++) {
                    mix(a());
                    mix((u64)a.integer<i16>());
                    mix((u64)a.range<i32>(-100 - (i32)c, 1 << (c % 20)));
                    mix((u64)a.range<u8>(0, (u8)(c + 1)));
                    mix((u64)(a.unit<f64>() * 1e9));
                    mix((u64)(a.unit<f32>() * 1e6f));
                    mix(a.coin_flip<f32>(0.5f));
                    for(long x : shuffled<int>(a, c % 9)) mix((u64)x);
                }
                res = limbs(h);
            }
            if(n != "reset" && n != "end") e.nums("res", res);
            emit(e);
        }
    }
};
} // namespace
int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) { (new Run)->go(sc); });
}
