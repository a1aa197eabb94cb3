// Conformance driver for Map (C04). Keys carry a hash chosen by the script (reset h1=.. h2=..:
// the top five bits; lo=1 makes the low bits differ per key), or are strings with their own hash.
#include "common.h"
#include "containers.h"
#include <rpp/vmath.h>
using namespace rpp;
using namespace drv;

static u64 g_hash[64];

RPP_NAMED_RECORD(drv::Triv, "Triv", RPP_FIELD(v));
RPP_NAMED_RECORD(drv::TrivM, "TrivM", RPP_FIELD(v));
RPP_NAMED_RECORD(drv::TokM, "TokM", RPP_FIELD(v));
RPP_NAMED_RECORD(drv::TokC, "TokC", RPP_FIELD(v));

namespace rpp::Hash {
template<> struct Hash<drv::Triv> {
    static u64 hash(const drv::Triv& k) noexcept { return g_hash[k.value()]; }
};
template<> struct Hash<drv::TrivM> {
    static u64 hash(const drv::TrivM& k) noexcept { return g_hash[k.value()]; }
};
template<> struct Hash<drv::TokM> {
    static u64 hash(const drv::TokM& k) noexcept { return g_hash[k.value()]; }
};
template<> struct Hash<drv::TokC> {
    static u64 hash(const drv::TokC& k) noexcept { return g_hash[k.value()]; }
};
} // namespace rpp::Hash

namespace {

using Str = String<TestAlloc<7>>;

template<typename K> K mk(long id) {
    return K{(int)id};
}
template<typename K> long idof(const K& k) {
    return k.value();
}
template<> Str mk<Str>(long id) {
    char b[64];
    snprintf(b, sizeof b, "key%ld%s", id, id % 3 == 0 ? "abcdefghijklmnopqrstuvwxyz" : "");
    return String_View{(const u8*)b, strlen(b)}.string<TestAlloc<7>>();
}
template<> long idof<Str>(const Str& k) {
    char b[64] = {};
    memcpy(b, k.data(), k.length() < 60 ? k.length() : 60);
    return strtol(b + 3, nullptr, 10);
}

// zero has two representations that are equal
long g_flip = 0;
template<> f32 mk<f32>(long id) {
    return id == 1 ? (g_flip++ % 2 ? -0.0f : 0.0f) : (f32)(id - 1) * (id % 2 ? 0.25f : -1e30f);
}
template<> f64 mk<f64>(long id) {
    return id == 1 ? (g_flip++ % 2 ? -0.0 : 0.0) : (f64)(id - 1) * (id % 2 ? 0.25 : -1e300);
}
template<> long idof<f32>(const f32& k) {
    return k < 0 ? (long)(k / -1e30f + 1.5f) : (long)(k * 4 + 1.5f);
}
template<> long idof<f64>(const f64& k) {
    return k < 0 ? (long)(k / -1e300 + 1.5) : (long)(k * 4 + 1.5);
}
template<> i64 mk<i64>(long id) {
    return id % 2 ? -id : id << 40;
}
template<> long idof<i64>(const i64& k) {
    return k < 0 ? -k : k >> 40;
}
template<> u16 mk<u16>(long id) {
    return (u16)(id * 1000);
}
template<> long idof<u16>(const u16& k) {
    return k / 1000;
}
char g_at[64];
template<> char* mk<char*>(long id) {
    return g_at + id;
}
template<> long idof<char*>(char* const& k) {
    return k - g_at;
}
template<> Vec3 mk<Vec3>(long id) {
    return Vec3{mk<f32>(1), (f32)(id % 4), (f32)(id / 4)};
}
template<> long idof<Vec3>(const Vec3& k) {
    return (long)(k.z * 4 + k.y + 0.5f);
}

// all 256 values of a char are distinct keys, half of them negative
template<> char mk<char>(long id) {
    return (char)(id * 37);
}
template<> long idof<char>(const char& k) {
    for(long id = 0; id < 64; id++)
        if((char)(id * 37) == k) return id;
    return -1;
}
template<> Log::Location mk<Log::Location>(long id) {
    const char* f[] = {"f", "g", "main", ""};
    return Log::Location{String_View{(const u8*)f[id % 4], strlen(f[id % 4])}, id & 4 ? "a.h"_v : "f"_v,
                         (u64)(id / 8)};
}
template<> long idof<Log::Location>(const Log::Location& k) {
    long f = k.function == "f"_v ? 0 : k.function == "g"_v ? 1 : k.function == "main"_v ? 2 : 3;
    return (long)k.line * 8 + (k.file == "a.h"_v ? 4 : 0) + f;
}

template<typename K, typename V> struct MapRun {
    using C = Map<K, V, TestAlloc<4>>;
    static constexpr int N = 3;
    static constexpr bool str = std::is_same_v<K, Str>;
    Slot<C> c[N];
    long next_v = 1000;
    void state(Ev& e) {
        std::string st = "[";
        for(int i = 0; i < N; i++) {
            if(i) st += ",";
            if(!c[i].on) {
                st += "{\"on\":false,\"k\":[],\"v\":[],\"n\":0}";
                continue;
            }
            std::vector<long> ks, vs;
            const C& m = *c[i];
            for(auto& p : m) {
                ks.push_back(idof(p.first));
                vs.push_back(p.second.value());
            }
            st += "{\"on\":true,\"k\":" + Ev::arr(ks) + ",\"v\":" + Ev::arr(vs) +
                  ",\"n\":" + std::to_string(m.length()) + "}";
        }
        e.raw("st", st + "]");
        e.num("live", g_live);
        e.num("err", g_err);
        e.num("per", (counted<K> ? 1 : 0) + (counted<V> ? 1 : 0));
    }
    V& insert(C& m, const K& k, long f, int v) {
        if constexpr(Copy_Constructable<K> && Copy_Constructable<V>) {
            V x{v};
            if(f == 0) return m.insert(k, x);
            if(f == 1) return m.insert(K(k), x);
            if(f == 2) return m.insert(k, rpp::move(x));
        } else if constexpr(Copy_Constructable<V> && !str) {
            V x{v};
            if(f == 1 || f == 0) return m.insert(mk<K>(idof(k)), x);
        } else if constexpr(Copy_Constructable<K>) {
            if(f == 2 || f == 0) return m.insert(k, V{v});
        }
        return m.insert(mk<K>(idof(k)), V{v});
    }
    void go(const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            Ev e;
            long a = op.get("c") - 1, b = op.get("d") - 1;
            std::vector<long> r;
            auto val = [&]() {
                if(!op.has("v")) op.set("v", next_v++);
                return (int)op.get("v");
            };
            if(n == "reset" || n == "end") {
                if(n == "end")
                    for(auto& s : c) s.off();
                else
                    for(long k = 0; k < 64; k++) {
                        char key[8];
                        snprintf(key, 8, "h%ld", k);
                        u64 h = op.has(key) ? (u64)op.get(key) : Hash::squirrel5((u64)k) >> 59;
                        if(op.get("lo") == 2)
                            g_hash[k] = Hash::squirrel5((u64)k);
                        else
                            g_hash[k] = (h << 59) | (op.get("lo") ? (u64)k << 1 : 0);
                    }
            } else if(n == "new") {
                c[a].emplace();
            } else if(n == "newcap") {
                c[a].emplace((u64)op.get("n"));
            } else if(n == "init2") {
                int v = val();
                next_v++;
                c[a].emplace(Pair<K, V>{mk<K>(op.get("k")), V{v}}, Pair<K, V>{mk<K>(op.get("k2")), V{v + 1}});
            } else if(n == "ins") {
                int v = val();
                K k = mk<K>(op.get("k"));
                r.push_back(insert(*c[a], k, op.get("f"), v).value());
                r.push_back(idof(k));
            } else if(n == "insw") {
                int v = val();
                next_v++;
                K k = mk<K>(op.get("k"));
                insert(*c[a], k, op.get("f"), v) = V{v + 1};
            } else if(n == "emplace") {
                r.push_back(c[a]->emplace(mk<K>(op.get("k")), val()).value());
            } else if(n == "emplacew") {
                int v = val();
                next_v++;
                c[a]->emplace(mk<K>(op.get("k")), v) = V{v + 1};
            } else if(n == "erase") {
                c[a]->erase(mk<K>(op.get("k")));
            } else if(n == "tryerase") {
                r.push_back(c[a]->try_erase(mk<K>(op.get("k"))));
            } else if(n == "get") {
                const C& m = *c[a];
                K k = mk<K>(op.get("k"));
                r = {m.get(k).value(), c[a]->get(k).value()};
                if constexpr(str) r.push_back(c[a]->get(k.view()).value());
                else r.push_back(r[0]);
            } else if(n == "getw") {
                c[a]->get(mk<K>(op.get("k"))) = V{val()};
            } else if(n == "tryget") {
                const C& m = *c[a];
                K k = mk<K>(op.get("k"));
                auto x = c[a]->try_get(k);
                auto y = m.try_get(k);
                r = {x.ok() ? (long)(**x).value() : -1, y.ok() ? (long)(**y).value() : -1};
                if constexpr(str) {
                    auto z = c[a]->try_get(k.view());
                    r.push_back(z.ok() ? (long)(**z).value() : -1);
                } else
                    r.push_back(r[0]);
            } else if(n == "trygetw") {
                int v = val();
                K k = mk<K>(op.get("k"));
                auto x = c[a]->try_get(k);
                if(x.ok()) **x = V{v};
            } else if(n == "has") {
                const C& m = *c[a];
                K k = mk<K>(op.get("k"));
                r = {m.contains(k)};
                if constexpr(str) r.push_back(m.contains(k.view()));
                else r.push_back(r[0]);
            } else if(n == "goi") {
                if constexpr(Copy_Constructable<K>) {
                    K k = mk<K>(op.get("k"));
                    r = {c[a]->get_or_insert(k).value(), idof(k)};
                } else
                    r = {c[a]->get_or_insert(mk<K>(op.get("k"))).value(), op.get("k")};
            } else if(n == "goim") {
                r = {c[a]->get_or_insert(mk<K>(op.get("k"))).value(), op.get("k")};
            } else if(n == "goiw") {
                c[a]->get_or_insert(mk<K>(op.get("k"))) = V{val()};
            } else if(n == "setit") {
                int v = val();
                for(auto& p : *c[a])
                    if(idof(p.first) == op.get("k")) p.second = V{v};
            } else if(n == "probe") {
                C& m = *c[a];
                std::vector<long> ks, vs, kc;
                for(auto it = m.begin(); !(it == m.end()); it++) {
                    ks.push_back(idof(it->first));
                    vs.push_back((*it).second.value());
                }
                e.nums("ks", ks);
                e.nums("vs", vs);
                const C& k = m;
                std::vector<long> k2, v2, k3, v3, k4, v4;
                for(auto it = k.begin(); !(it == k.end()); ++it) {
                    k2.push_back(idof(it->first));
                    v2.push_back((*it).second.value());
                }
                for(auto it = k.begin(); !(it == k.end());) {
                    auto old = it++;
                    k3.push_back(idof((*old).first));
                    v3.push_back(old->second.value());
                }
                for(auto it = m.begin(); !(it == m.end());) {
                    auto old = it;
                    auto at = ++it;
                    k4.push_back(idof((*old).first));
                    v4.push_back(old->second.value());
                    if(!(at == it)) v4.push_back(-7);
                }
                e.raw("xk", "[" + Ev::arr(k2) + "," + Ev::arr(k3) + "," + Ev::arr(k4) + "]");
                e.raw("xv", "[" + Ev::arr(v2) + "," + Ev::arr(v3) + "," + Ev::arr(v4) + "]");
                e.boolean("empty", m.empty());
            } else if(n == "clear") {
                c[a]->clear();
            } else if(n == "reserve") {
                c[a]->reserve((u64)op.get("n"));
            } else if(n == "grow") {
                c[a]->grow();
            } else if(n == "clone") {
                c[b].put(c[a]->clone());
            } else if(n == "clonea") {
                *c[b] = c[a]->clone();
            } else if(n == "movec") {
                c[b].put(rpp::move(*c[a]));
            } else if(n == "movea") {
                *c[b] = rpp::move(*c[a]);
            } else if(n == "drop") {
                c[a].off();
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            Ev h;
            h.head(op, "ok");
            if(!e.first) h.s += "," + e.s.substr(1);
            h.nums("r", r);
            state(h);
            if(n == "end") h.num("blocks", g_blocks);
            emit(h);
        }
    }
};

} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        switch(sc[0].get("kind")) {
        case 0: (new MapRun<Triv, Triv>)->go(sc); break;
        case 1: (new MapRun<TokM, TokM>)->go(sc); break;
        case 2: (new MapRun<TokC, TokC>)->go(sc); break;
        case 3: (new MapRun<TokM, TokC>)->go(sc); break;
        case 4: (new MapRun<TokC, TokM>)->go(sc); break;
        case 5: (new MapRun<TrivM, TokC>)->go(sc); break;
        case 6: (new MapRun<Str, TokC>)->go(sc); break;
        case 7: (new MapRun<Str, Triv>)->go(sc); break;
        case 8: (new MapRun<f32, Triv>)->go(sc); break;
        case 9: (new MapRun<f64, TokC>)->go(sc); break;
        case 10: (new MapRun<i64, TokM>)->go(sc); break;
        case 11: (new MapRun<u16, Triv>)->go(sc); break;
        case 12: (new MapRun<char*, Triv>)->go(sc); break;
        case 13: (new MapRun<Vec3, Triv>)->go(sc); break;
        case 14: (new MapRun<char, TokC>)->go(sc); break;
        case 15: (new MapRun<Log::Location, Triv>)->go(sc); break;
        default: _exit(98);
        }
    });
}
