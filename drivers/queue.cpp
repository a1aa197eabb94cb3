// Conformance driver for Queue (C02) and Heap (C03).
#include "common.h"
#include "containers.h"
#include <rpp/heap.h>
using namespace rpp;
using namespace drv;

namespace {

template<typename E> struct QueueRun {
    using C = Queue<E, TestAlloc<2>>;
    static constexpr int N = 3;
    Slot<C> c[N];
    long next_v = 100;
    static std::vector<long> contents(const C& k) {
        std::vector<long> v;
        for(const E& x : k) v.push_back(x.value());
        return v;
    }
    void state(Ev& e) {
        std::string st = "[";
        for(int i = 0; i < N; i++) {
            if(i) st += ",";
            if(!c[i].on) {
                st += "{\"on\":false,\"v\":[],\"n\":0}";
                continue;
            }
            st += "{\"on\":true,\"v\":" + Ev::arr(contents(*c[i])) + ",\"n\":" + std::to_string(c[i]->length()) + "}";
        }
        e.raw("st", st + "]");
        e.num("live", counted<E> ? g_live : -1);
        e.num("err", g_err);
    }
    void go(const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            Ev e;
            long a = op.get("c") - 1, b = op.get("d") - 1;
            std::vector<long> r;
            auto val = [&]() {
                if(!op.has("v")) op.set("v", next_v++);
                return (int)op.get("v");
            };
            if(n == "reset" || n == "end") {
                if(n == "end")
                    for(auto& s : c) s.off();
            } else if(n == "new") {
                c[a].emplace();
            } else if(n == "newcap") {
                c[a].emplace((u64)op.get("n"));
            } else if(n == "init3") {
                int v = val();
                next_v += 2;
                c[a].emplace(E{v}, E{v + 1}, E{v + 2});
            } else if(n == "push") {
                r.push_back(c[a]->push(E{val()}).value());
            } else if(n == "pushc") {
                if constexpr(Copy_Constructable<E>) {
                    E x{val()};
                    r.push_back(c[a]->push(x).value());
                    r.push_back(x.value());
                } else {
                    E x{val()};
                    r.push_back(c[a]->push(rpp::move(x)).value());
                    r.push_back(op.get("v"));
                }
            } else if(n == "emplace") {
                r.push_back(c[a]->emplace(val()).value());
            } else if(n == "pushdup") {
                op.set("v", (*c[a])[(u64)op.get("i")].value());
                r.push_back(c[a]->push(E{(int)op.get("v")}).value());
            } else if(n == "pop") {
                c[a]->pop();
            } else if(n == "clear") {
                c[a]->clear();
            } else if(n == "reserve") {
                c[a]->reserve((u64)op.get("n"));
            } else if(n == "grow") {
                c[a]->grow();
            } else if(n == "set") {
                (*c[a])[(u64)op.get("i")] = E{val()};
            } else if(n == "setit") {
                auto it = c[a]->begin();
                for(long k = 0; k < op.get("i"); k++) ++it;
                *it = E{val()};
            } else if(n == "setfront") {
                c[a]->front() = E{val()};
            } else if(n == "setback") {
                c[a]->back() = E{val()};
            } else if(n == "setpen") {
                c[a]->penultimate() = E{val()};
            } else if(n == "erase") {
                long at = op.get("i");
                op.set("v", at < 0 ? 9999 : (long)(*c[a])[(u64)at].value());
                E x{(int)op.get("v")};
                r.push_back(c[a]->erase_first(x));
                r.push_back(x.value());
            } else if(n == "get") {
                const C& k = *c[a];
                r.push_back(k[(u64)op.get("i")].value());
                r.push_back((*c[a])[(u64)op.get("i")].value());
            } else if(n == "front") {
                r = {(*c[a]).front().value()};
            } else if(n == "back") {
                r = {(*c[a]).back().value()};
            } else if(n == "pen") {
                r = {(*c[a]).penultimate().value()};
            } else if(n == "probe") {
                const C& k = *c[a];
                C& m = *c[a];
                std::vector<long> iv, ivm, mv;
                for(u64 j = 0; j < k.length(); j++) iv.push_back(k[j].value());
                for(u64 j = 0; j < k.length(); j++) ivm.push_back(m[j].value());
                for(auto it = m.begin(); !(it == m.end()); it++) mv.push_back((*it).value());
                e.nums("iv", iv);
                e.nums("ivm", ivm);
                e.nums("mv", mv);
                e.boolean("empty", k.empty());
                Views x;
                x.range(k.begin(), k.end());
                x.range(m.begin(), m.end());
                std::vector<long> a1, a2, a3, a4;
                for(auto it = k.begin(); !(it == k.end());) a1.push_back((it++)->value());
                for(auto it = m.begin(); !(it == m.end());) a2.push_back((it++)->value());
                if(k.length()) {
                    auto it = k.begin();
                    auto jt = m.begin();
                    a3.push_back(it->value());
                    a4.push_back(jt->value());
                    for(u64 j = 1; j < k.length(); j++) {
                        a3.push_back((++it)->value());
                        a4.push_back((++jt)->value());
                    }
                }
                for(auto& v : {a1, a2, a3, a4}) x.add(v);
                x.into(e);
                if(k.length())
                    r = {k.front().value(), m.front().value(), k.back().value(), m.back().value()};
                if(k.length() > 1) {
                    r.push_back(k.penultimate().value());
                    r.push_back(m.penultimate().value());
                }
            } else if(n == "clone") {
                c[b].put(c[a]->clone());
            } else if(n == "clonea") {
                *c[b] = c[a]->clone();
            } else if(n == "movec") {
                c[b].put(rpp::move(*c[a]));
            } else if(n == "movea") {
                *c[b] = rpp::move(*c[a]);
            } else if(n == "drop") {
                c[a].off();
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            Ev h;
            h.head(op, "ok");
            if(!e.first) h.s += "," + e.s.substr(1);
            h.nums("r", r);
            state(h);
            if(n == "end") h.num("blocks", g_blocks);
            emit(h);
        }
    }
};

// Heap elements: value = key * 1000 + unique; only the key takes part in the order.
template<typename E> struct HeapRun {
    using C = Heap<E, TestAlloc<3>>;
    static constexpr int N = 3;
    Slot<C> c[N];
    long uniq = 0;
    void state(Ev& e) {
        std::string st = "[";
        for(int i = 0; i < N; i++) {
            if(i) st += ",";
            if(!c[i].on) {
                st += "{\"on\":false,\"v\":[],\"n\":0,\"top\":-1}";
                continue;
            }
            std::vector<long> v;
            const C& k = *c[i];
            for(const E& x : k) v.push_back(x.value());
            st += "{\"on\":true,\"v\":" + Ev::arr(v) + ",\"n\":" + std::to_string(k.length()) +
                  ",\"top\":" + std::to_string(k.length() ? (long)k.top().value() : -1) + "}";
        }
        e.raw("st", st + "]");
        e.num("live", counted<E> ? g_live : -1);
        e.num("err", g_err);
    }
    void go(const Script& sc) {
        g_div = 1000;
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            Ev e;
            long a = op.get("c") - 1, b = op.get("d") - 1;
            std::vector<long> r;
            auto val = [&]() {
                op.set("v", op.get("k") * 1000 + uniq++ % 1000);
                return (int)op.get("v");
            };
            if(n == "reset" || n == "end") {
                if(n == "end")
                    for(auto& s : c) s.off();
            } else if(n == "new") {
                c[a].emplace();
            } else if(n == "newcap") {
                c[a].emplace((u64)op.get("n"));
            } else if(n == "init3") {
                int v = val();
                uniq += 2;
                c[a].emplace(E{v + 1000 + 1}, E{v}, E{v + 2});
            } else if(n == "push") {
                c[a]->push(E{val()});
            } else if(n == "emplace") {
                c[a]->emplace(val());
            } else if(n == "pop") {
                c[a]->pop();
            } else if(n == "clear") {
                c[a]->clear();
            } else if(n == "reserve") {
                c[a]->reserve((u64)op.get("n"));
            } else if(n == "grow") {
                c[a]->grow();
            } else if(n == "top") {
                r = {(*c[a]).top().value()};
            } else if(n == "probe") {
                const C& k = *c[a];
                C& m = *c[a];
                std::vector<long> mv;
                for(auto& x : m) mv.push_back(x.value());
                e.nums("mv", mv);
                e.boolean("empty", k.empty());
                if(k.length()) r = {m.top().value()};
            } else if(n == "clone") {
                c[b].put(c[a]->clone());
            } else if(n == "clonea") {
                *c[b] = c[a]->clone();
            } else if(n == "movec") {
                c[b].put(rpp::move(*c[a]));
            } else if(n == "movea") {
                *c[b] = rpp::move(*c[a]);
            } else if(n == "drop") {
                c[a].off();
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            Ev h;
            h.head(op, "ok");
            if(!e.first) h.s += "," + e.s.substr(1);
            h.nums("r", r);
            state(h);
            if(n == "end") h.num("blocks", g_blocks);
            emit(h);
        }
    }
};

template<template<typename> class R> void by_kind(const Script& sc) {
    switch(sc[0].get("kind")) {
    case 0: (new R<Triv>)->go(sc); break;
    case 1: (new R<TokM>)->go(sc); break;
    case 2: (new R<TokC>)->go(sc); break;
    case 3: (new R<TrivM>)->go(sc); break;
    case 4: (new R<Pod>)->go(sc); break;
    default: _exit(98);
    }
}

} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        switch(sc[0].get("what")) {
        case 0: by_kind<QueueRun>(sc); break;
        case 1: by_kind<HeapRun>(sc); break;
        default: _exit(98);
        }
    });
}
