// Conformance driver for the integer helpers (C24).
#include "common.h"
#include <rpp/math.h>
using namespace rpp;
using namespace drv;

namespace {
using L = std::vector<long>;
template<typename T> T arg(const Op& op, char c) {
    char k[3] = {c, '1', 0};
    u64 v = 0;
    for(int i = 0; i < 4; i++) {
        k[1] = (char)('1' + i);
        v |= (u64)op.get(k) << (16 * i);
    }
    return (T)v;
}
// base 256, least digit first
template<typename T> void put(L& r, T v) {
    u64 u = (u64)v;
    for(u64 i = 0; i < sizeof(T); i++) {
        r.push_back((long)(u & 255));
        u >>= 8;
    }
}
template<typename T> void of(const Op& op, L& r) {
    const std::string& n = op.name;
    T a = arg<T>(op, 'a'), b = arg<T>(op, 'b'), c = arg<T>(op, 'c');
    if(n == "min") return put<T>(r, Math::min(a, b));
    if(n == "max") return put<T>(r, Math::max(a, b));
    if(n == "minl") return put<T>(r, Math::min({a, b, c}));
    if(n == "maxl") return put<T>(r, Math::max({a, b, c}));
    if(n == "clamp") return put<T>(r, Math::clamp(a, b, c));
    if(n == "limits") return put<T>(r, Limits<T>::min()), put<T>(r, Limits<T>::max());
    if(n == "pow") return put<T>(r, Math::pow(a, (T)op.get("n")));
    if constexpr(std::is_same_v<T, i32> || std::is_same_v<T, i64>)
        if(n == "abs") return put<T>(r, Math::abs(a));
    if constexpr(std::is_same_v<T, u32> || std::is_same_v<T, u64>) {
        if(n == "popcount") return put<T>(r, Math::popcount(a));
        if(n == "ctlz") return put<T>(r, Math::ctlz(a));
        if(n == "log2") return put<T>(r, Math::log2(a));
        if(n == "prev") return put<T>(r, Math::prev_pow2(a));
        if(n == "next") return put<T>(r, Math::next_pow2(a));
        if(n == "align") return put<T>(r, Math::align(a, b));
        if(n == "down") return put<T>(r, Math::align_down(a, b));
        if(n == "alignp") return put<T>(r, Math::align_pow2(a, b));
        if(n == "downp") return put<T>(r, Math::align_down_pow2(a, b));
    }
    if constexpr(std::is_same_v<T, u64>) {
        if(n == "kb") return put<T>(r, Math::KB(a));
        if(n == "mb") return put<T>(r, Math::MB(a));
        if(n == "gb") return put<T>(r, Math::GB(a));
    }
    fprintf(stderr, "unknown op %s\n", n.c_str());
    _exit(98);
}
} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            const Op& op = sc[i];
            begin_op((long)i);
            L r;
            if(op.name != "reset" && op.name != "end") switch(op.get("w")) {
                case 1: of<u8>(op, r); break;
                case 2: of<u16>(op, r); break;
                case 3: of<u32>(op, r); break;
                case 4: of<u64>(op, r); break;
                case 5: of<i8>(op, r); break;
                case 6: of<i16>(op, r); break;
                case 7: of<i32>(op, r); break;
                case 8: of<i64>(op, r); break;
                default: _exit(98);
                }
            Ev e;
            e.head(op, "ok");
            e.nums("res", r);
            emit(e);
        }
    });
}
