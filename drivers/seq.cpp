// Conformance driver for Vec, Stack, Array, Slice (property C01).
#include "common.h"
#include "containers.h"
#include <rpp/stack.h>
using namespace rpp;
using namespace drv;

namespace {

template<typename E> struct VecRun {
    using A = TestAlloc<0>;
    using C = Vec<E, A>;
    static constexpr int N = 4;
    Slot<C> c[N];
    std::unordered_map<const void*, long> blk;
    long next_blk = 1;
    long next_v = 100;

    long block(const void* p) {
        if(!p) return 0;
        auto it = blk.find(p);
        return it == blk.end() ? -1 : it->second;
    }
    void state(Ev& e, const std::vector<const void*>& before) {
        std::string st = "[";
        for(int i = 0; i < N; i++) {
            if(i) st += ",";
            if(!c[i].on) {
                st += "{\"on\":false,\"v\":[],\"n\":0,\"cap\":0,\"same\":true}";
                continue;
            }
            std::vector<long> v;
            const C& k = *c[i];
            for(const E& x : k) v.push_back(x.value());
            st += "{\"on\":true,\"v\":" + Ev::arr(v) + ",\"n\":" + std::to_string(k.length()) +
                  ",\"cap\":" + std::to_string(k.capacity()) +
                  ",\"same\":" + (k.data() == before[(size_t)i] ? "true" : "false") + "}";
        }
        e.raw("st", st + "]");
        e.num("live", counted<E> ? g_live : -1);
        e.num("err", g_err);
    }
    void go(const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            Ev e;
            long a = op.get("c") - 1, b = op.get("d") - 1;
            std::vector<const void*> before(N, nullptr);
            for(int j = 0; j < N; j++)
                if(c[j].on) before[(size_t)j] = (*c[j]).data();
            std::vector<long> r; // results
            auto val = [&]() {
                if(!op.has("v")) op.set("v", next_v++);
                return (int)op.get("v");
            };
            if(n == "reset" || n == "end") {
                if(n == "end")
                    for(auto& s : c) s.off();
            } else if(n == "new") {
                c[a].emplace();
            } else if(n == "newcap") {
                c[a].emplace((u64)op.get("n"));
            } else if(n == "make") {
                c[a].put(C::make((u64)op.get("n")));
            } else if(n == "init3") {
                int v = val();
                next_v += 2;
                c[a].emplace(E{v}, E{v + 1}, E{v + 2});
            } else if(n == "push") {
                r.push_back(c[a]->push(E{val()}).value());
            } else if(n == "pushc") {
                if constexpr(Copy_Constructable<E>) {
                    E x{val()};
                    r.push_back(c[a]->push(x).value());
                    r.push_back(x.value());
                } else {
                    E x{val()};
                    r.push_back(c[a]->push(rpp::move(x)).value());
                    r.push_back(op.get("v"));
                }
            } else if(n == "emplace") {
                r.push_back(c[a]->emplace(val()).value());
            } else if(n == "pop") {
                c[a]->pop();
            } else if(n == "clear") {
                c[a]->clear();
            } else if(n == "reserve") {
                c[a]->reserve((u64)op.get("n"));
            } else if(n == "grow") {
                c[a]->grow();
            } else if(n == "resize") {
                c[a]->resize((u64)op.get("n"));
            } else if(n == "extend") {
                c[a]->extend((u64)op.get("n"));
            } else if(n == "set") {
                (*c[a])[(u64)op.get("i")] = E{val()};
            } else if(n == "setit") {
                *(c[a]->begin() + op.get("i")) = E{val()};
            } else if(n == "setslice") {
                auto s = c[a]->slice();
                s[(u64)op.get("i")] = E{val()};
            } else if(n == "fill") {
                // construct in place up to capacity, then declare the vector full
                long v0 = next_v;
                for(u64 k = c[a]->length(); k < c[a]->capacity(); k++)
                    new(c[a]->data() + k) E{(int)next_v++};
                op.set("v", v0);
                c[a]->unsafe_fill();
            } else if(n == "get") {
                const C& k = *c[a];
                r.push_back(k[(u64)op.get("i")].value());
                r.push_back((*c[a])[(u64)op.get("i")].value());
            } else if(n == "probe") {
                // every read-only view of the contents
                const C& k = *c[a];
                C& m = *c[a];
                std::vector<long> iv, mv, sv, dv, msv;
                for(u64 j = 0; j < k.length(); j++) iv.push_back(k[j].value());
                for(E* p = m.begin(); p != m.end(); ++p) mv.push_back(p->value());
                auto cs = k.slice();
                for(auto& x : cs) sv.push_back(x.value());
                auto ms = m.slice();
                for(u64 j = 0; j < ms.length(); j++) msv.push_back(ms[j].value());
                for(u64 j = 0; j < k.length(); j++) dv.push_back(k.data()[j].value());
                e.nums("iv", iv);
                e.nums("mv", mv);
                e.nums("sv", sv);
                e.nums("msv", msv);
                e.nums("dv", dv);
                e.boolean("empty", k.empty());
                e.boolean("full", k.full());
                Views x;
                x.range(k.begin(), k.end());
                x.slice(cs);
                x.slice(ms);
                x.slice(k.slice());
                Slice<const E> conv = ms;
                x.slice(conv);
                x.slice(Slice<const E>{k.data(), k.length()});
                x.slice(Slice<E>{m.data(), m.length()});
                x.into(e);
                e.num("bytes", (long)(k.bytes() / sizeof(E)));
                e.num("sbytes", (long)(cs.bytes() / sizeof(E)));
                e.boolean("sempty", cs.empty());
                if(k.length()) {
                    r = {k.front().value(), m.front().value(), k.back().value(), m.back().value(),
                         cs.front().value(), cs.back().value()};
                }
            } else if(n == "sub") {
                const C& k = *c[a];
                auto s = k.slice().sub((u64)op.get("i"), (u64)op.get("n"));
                for(auto& x : s) r.push_back(x.value());
                auto by = s.to_bytes();
                e.num("sub_bytes", (long)(by.length() / sizeof(E)));
            } else if(n == "clone") {
                c[b].put(c[a]->clone());
            } else if(n == "clonea") {
                *c[b] = c[a]->clone();
            } else if(n == "movec") {
                c[b].put(rpp::move(*c[a]));
            } else if(n == "movea") {
                *c[b] = rpp::move(*c[a]);
            } else if(n == "drop") {
                c[a].off();
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            Ev h;
            h.head(op, "ok");
            if(!e.first) h.s += "," + e.s.substr(1);
            h.nums("r", r);
            state(h, before);
            if(n == "end") h.num("blocks", g_blocks);
            emit(h);
        }
    }
};

template<typename E> struct StackRun {
    using A = TestAlloc<1>;
    using C = Stack<E, A>;
    static constexpr int N = 4;
    Slot<C> c[N];
    long next_v = 100;
    void state(Ev& e) {
        std::string st = "[";
        for(int i = 0; i < N; i++) {
            if(i) st += ",";
            if(!c[i].on) {
                st += "{\"on\":false,\"v\":[],\"n\":0,\"cap\":-1,\"same\":false}";
                continue;
            }
            std::vector<long> v;
            const C& k = *c[i];
            for(const E& x : k) v.push_back(x.value());
            st += "{\"on\":true,\"v\":" + Ev::arr(v) + ",\"n\":" + std::to_string(k.length()) +
                  ",\"cap\":-1,\"same\":false}";
        }
        e.raw("st", st + "]");
        e.num("live", counted<E> ? g_live : -1);
        e.num("err", g_err);
    }
    void go(const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            Ev e;
            long a = op.get("c") - 1, b = op.get("d") - 1;
            std::vector<long> r;
            auto val = [&]() {
                if(!op.has("v")) op.set("v", next_v++);
                return (int)op.get("v");
            };
            if(n == "reset" || n == "end") {
                if(n == "end")
                    for(auto& s : c) s.off();
            } else if(n == "new") {
                c[a].emplace();
            } else if(n == "newcap") {
                c[a].emplace((u64)op.get("n"));
            } else if(n == "init3") {
                int v = val();
                next_v += 2;
                c[a].emplace(E{v}, E{v + 1}, E{v + 2});
            } else if(n == "push") {
                r.push_back(c[a]->push(E{val()}).value());
            } else if(n == "pushc") {
                if constexpr(Copy_Constructable<E>) {
                    E x{val()};
                    r.push_back(c[a]->push(x).value());
                    r.push_back(x.value());
                } else {
                    E x{val()};
                    r.push_back(c[a]->push(rpp::move(x)).value());
                    r.push_back(op.get("v"));
                }
            } else if(n == "emplace") {
                r.push_back(c[a]->emplace(val()).value());
            } else if(n == "pop") {
                c[a]->pop();
            } else if(n == "clear") {
                c[a]->clear();
            } else if(n == "settop") {
                c[a]->top() = E{val()};
            } else if(n == "setit") {
                *(c[a]->begin() + op.get("i")) = E{val()};
            } else if(n == "probe") {
                const C& k = *c[a];
                C& m = *c[a];
                std::vector<long> mv;
                for(E* p = m.begin(); p != m.end(); ++p) mv.push_back(p->value());
                e.nums("mv", mv);
                e.boolean("empty", k.empty());
                if(k.length()) r = {k.top().value(), m.top().value()};
                Views x;
                x.range(k.begin(), k.end());
                x.range(m.begin(), m.end());
                // a stack refilled from this one: it says it is full exactly when the next push must move it
                std::vector<long> back, fl, mo;
                {
                    C t(k.length() + 1);
                    auto push = [&](int q) {
                        const C& ct = t;
                        fl.push_back(ct.full());
                        auto at = ct.begin();
                        t.push(E{q});
                        mo.push_back(ct.begin() != at);
                    };
                    for(const E& q : k) push((int)q.value());
                    for(int j = 0; j < 8; j++) push(7);
                    for(int j = 0; j < 8; j++) t.pop();
                    while(!t.empty()) {
                        back.insert(back.begin(), t.top().value());
                        t.pop();
                    }
                }
                x.add(back);
                x.into(e);
                e.nums("fl", fl);
                e.nums("mo", mo);
            } else if(n == "clone") {
                c[b].put(c[a]->clone());
            } else if(n == "clonea") {
                *c[b] = c[a]->clone();
            } else if(n == "movec") {
                c[b].put(rpp::move(*c[a]));
            } else if(n == "movea") {
                *c[b] = rpp::move(*c[a]);
            } else if(n == "drop") {
                c[a].off();
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            Ev h;
            h.head(op, "ok");
            if(!e.first) h.s += "," + e.s.substr(1);
            h.nums("r", r);
            state(h);
            if(n == "end") h.num("blocks", g_blocks);
            emit(h);
        }
    }
};

template<typename E> struct ArrayRun {
    using C = Array<E, 3>;
    static constexpr int N = 4;
    Slot<C> c[N];
    long next_v = 100;
    void state(Ev& e) {
        std::string st = "[";
        for(int i = 0; i < N; i++) {
            if(i) st += ",";
            if(!c[i].on) {
                st += "{\"on\":false,\"v\":[],\"n\":0,\"cap\":-1,\"same\":false}";
                continue;
            }
            std::vector<long> v;
            C& k = *c[i];
            for(u64 j = 0; j < 3; j++) {
                if constexpr(counted<E>)
                    v.push_back(k.data()[j].id < 0 ? -1 : k[j].value());
                else
                    v.push_back(k[j].value());
            }
            st += "{\"on\":true,\"v\":" + Ev::arr(v) + ",\"n\":" + std::to_string(k.length()) +
                  ",\"cap\":-1,\"same\":false}";
        }
        e.raw("st", st + "]");
        e.num("live", counted<E> ? g_live : -1);
        e.num("err", g_err);
    }
    void go(const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            Ev e;
            long a = op.get("c") - 1, b = op.get("d") - 1;
            std::vector<long> r;
            auto val = [&]() {
                if(!op.has("v")) op.set("v", next_v++);
                return (int)op.get("v");
            };
            if(n == "reset" || n == "end") {
                if(n == "end")
                    for(auto& s : c) s.off();
            } else if(n == "new") {
                c[a].emplace();
            } else if(n == "init3") {
                int v = val();
                next_v += 2;
                c[a].emplace(E{v}, E{v + 1}, E{v + 2});
            } else if(n == "set") {
                (*c[a])[(u64)op.get("i")] = E{val()};
            } else if(n == "probe") {
                const C& k = *c[a];
                C& m = *c[a];
                std::vector<long> iv, mv, sv, dv, msv;
                for(u64 j = 0; j < k.length(); j++) iv.push_back(k[j].value());
                for(E* p = m.begin(); p != m.end(); ++p) mv.push_back(p->value());
                auto cs = k.slice();
                for(auto& x : cs) sv.push_back(x.value());
                auto ms = m.slice();
                for(u64 j = 0; j < ms.length(); j++) msv.push_back(ms[j].value());
                for(u64 j = 0; j < k.length(); j++) dv.push_back(k.data()[j].value());
                e.nums("iv", iv);
                e.nums("mv", mv);
                e.nums("sv", sv);
                e.nums("msv", msv);
                e.nums("dv", dv);
                Views x;
                x.range(k.begin(), k.end());
                x.slice(cs);
                x.slice(ms);
                x.into(e);
            } else if(n == "clone") {
                c[b].put(c[a]->clone());
            } else if(n == "clonea") {
                *c[b] = c[a]->clone();
            } else if(n == "movec") {
                c[b].put(rpp::move(*c[a]));
                c[a].off();
            } else if(n == "movea") {
                *c[b] = rpp::move(*c[a]);
                if(a != b) c[a].off();
            } else if(n == "drop") {
                c[a].off();
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            Ev h;
            h.head(op, "ok");
            if(!e.first) h.s += "," + e.s.substr(1);
            h.nums("r", r);
            state(h);
            if(n == "end") h.num("blocks", g_blocks);
            emit(h);
        }
    }
};

template<template<typename> class R> void by_kind(const Script& sc) {
    switch(sc[0].get("kind")) {
    case 0: (new R<Triv>)->go(sc); break;
    case 1: (new R<TokM>)->go(sc); break;
    case 2: (new R<TokC>)->go(sc); break;
    case 3: (new R<TrivM>)->go(sc); break;
    case 4: (new R<Pod>)->go(sc); break;
    default: _exit(98);
    }
}

} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        switch(sc[0].get("what")) {
        case 0: by_kind<VecRun>(sc); break;
        case 1: by_kind<StackRun>(sc); break;
        case 2: by_kind<ArrayRun>(sc); break;
        default: _exit(98);
        }
    });
}
