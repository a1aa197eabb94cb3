// Conformance driver for Free_List and Mpool (C10), sequential part.
#include <set>
#include <stdint.h>
#include "common.h"
#include "containers.h"
using namespace drv;
namespace {
constexpr int NO = 90;
struct Two {
    long a, b;
    explicit Two(int v) : a(v), b(-v) {
    }
    int value() const {
        return a == -b ? (int)a : -77;
    }
    void set(int v) {
        a = v;
        b = -v;
    }
};
struct One {
    signed char c;
    explicit One(int v) : c((signed char)v) {
    }
    int value() const {
        return c;
    }
    void set(int v) {
        c = (signed char)v;
    }
};
struct Bit {
    unsigned char c;
    explicit Bit(int v) : c((unsigned char)~v) {
    }
    int value() const {
        return (unsigned char)~c;
    }
    void set(int v) {
        c = (unsigned char)~v;
    }
};
template<int N> struct alignas(8) Big {
    int v;
    char fill[N];
    explicit Big(int x) {
        set(x);
    }
    void set(int x) {
        v = x;
        memset(fill, x & 127, N);
    }
    int value() const {
        for(char c : fill)
            if(c != (v & 127)) return -77;
        return v;
    }
    ~Big() {
        if(value() != v) tok_err("damaged object destroyed");
    }
};
struct Tok : TokM {
    using TokM::TokM;
    void set(int x) {
        static_cast<TokM&>(*this) = TokM{x};
    }
};
struct alignas(16) Wide {
    long a[4];
    explicit Wide(int v) {
        set(v);
    }
    void set(int v) {
        for(long& x : a) x = v;
    }
    int value() const {
        return a[0] == a[1] && a[1] == a[2] && a[2] == a[3] ? (int)a[0] : -77;
    }
};
struct Nest { // 16 bytes, makes another object of the same class
    int v;
    int tok;
    Two* kid;
    explicit Nest(int x) : v(x), tok(tok_new()), kid(rpp::Mpool::make<Two>(x)) {
    }
    ~Nest() {
        if(kid->value() != v) tok_err("inner object damaged");
        if(!g_alive[(size_t)tok]) tok_err("double destruction");
        g_alive[(size_t)tok] = 0;
        g_live--;
        rpp::Mpool::destroy(kid);
    }
    int value() const {
        return kid->value() == v ? v : -78;
    }
    void set(int x) {
        v = x;
        kid->set(x);
    }
};
static_assert(sizeof(Tok) == 16 && sizeof(Two) == 16 && sizeof(Nest) == 16 && sizeof(One) == 1 && sizeof(Bit) == 1);
using Forty = Big<36>;
static_assert(sizeof(Forty) == 40);

struct Obj {
    bool on = false;
    long ty = 0;
    char* p = nullptr;
    size_t size = 0, align = 1;
};
template<typename T> struct Run {
    using A = TestAlloc<5>;
    using L = rpp::Free_List<T, A>;
    Slot<L> l[2];
    Obj obj[NO + 1];
    std::set<char*> seen[4]; // addresses used so far, by class
    static int cls(long ty) {
        return ty == 5 ? 3 : ty == 3 || ty == 4 ? 2 : 1;
    }
    int value(const Obj& o) {
        switch(o.ty) {
        case 0: return ((T*)o.p)->value();
        case 1: return ((Tok*)o.p)->value();
        case 2: return ((Two*)o.p)->value();
        case 3: return ((One*)o.p)->value();
        case 4: return ((Bit*)o.p)->value();
        case 5: return ((Forty*)o.p)->value();
        default: return ((Nest*)o.p)->value();
        }
    }
    void set(const Obj& o, int v) {
        switch(o.ty) {
        case 0: ((T*)o.p)->set(v); break;
        case 1: ((Tok*)o.p)->set(v); break;
        case 2: ((Two*)o.p)->set(v); break;
        case 3: ((One*)o.p)->set(v); break;
        case 4: ((Bit*)o.p)->set(v); break;
        case 5: ((Forty*)o.p)->set(v); break;
        default: ((Nest*)o.p)->set(v); break;
        }
    }
    template<typename U> long pool_make(Obj& o, long ty, int v) {
        U* u = rpp::Mpool::make<U>(v);
        o = Obj{true, ty, (char*)u, sizeof(U), alignof(U)};
        long fresh = seen[cls(ty)].insert(o.p).second;
        if constexpr(std::is_same_v<U, Nest>) fresh += seen[cls(ty)].insert((char*)u->kid).second;
        return fresh;
    }
    void pool_destroy(const Obj& o) {
        switch(o.ty) {
        case 1: rpp::Mpool::destroy((Tok*)o.p); break;
        case 2: rpp::Mpool::destroy((Two*)o.p); break;
        case 3: rpp::Mpool::destroy((One*)o.p); break;
        case 4: rpp::Mpool::destroy((Bit*)o.p); break;
        case 5: rpp::Mpool::destroy((Forty*)o.p); break;
        default: rpp::Mpool::destroy((Nest*)o.p); break;
        }
    }
    void go(const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            const Op& op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            int a = (int)op.get("l", 1) - 1, d = (int)op.get("d", 1) - 1, v = (int)op.get("v");
            Obj& o = obj[op.get("o")];
            std::vector<long> r;
            int id = 1;
            while(id < NO && obj[id].on) id++;
            if(n == "new") {
                l[a].off();
                l[a].emplace();
            } else if(n == "mk") {
                T* t = l[a]->make(v);
                obj[id] = Obj{true, 0, (char*)t, sizeof(T), alignof(T)};
            } else if(n == "pmk") {
                long ty = op.get("ty");
                switch(ty) {
                case 1: r.push_back(pool_make<Tok>(obj[id], ty, v)); break;
                case 2: r.push_back(pool_make<Two>(obj[id], ty, v)); break;
                case 3: r.push_back(pool_make<One>(obj[id], ty, v)); break;
                case 4: r.push_back(pool_make<Bit>(obj[id], ty, v)); break;
                case 5: r.push_back(pool_make<Forty>(obj[id], ty, v)); break;
                default: r.push_back(pool_make<Nest>(obj[id], ty, v)); break;
                }
            } else if(n == "rm") {
                l[a]->destroy((T*)o.p);
                o.on = false;
            } else if(n == "prm") {
                pool_destroy(o);
                o.on = false;
            } else if(n == "set")
                set(o, v);
            else if(n == "clear")
                l[a]->clear();
            else if(n == "drop")
                l[a].off();
            else if(n == "movec") {
                l[d].off();
                l[d].put(static_cast<L&&>(*l[a]));
            } else if(n == "movea")
                *l[d] = static_cast<L&&>(*l[a]);
            else if(n == "end") {
                if(!l[0].on) l[0].emplace();
                for(auto& x : obj)
                    if(x.on) {
                        if(x.ty)
                            pool_destroy(x);
                        else
                            l[0]->destroy((T*)x.p);
                        x.on = false;
                    }
                for(auto& x : l) x.off();
            }
            Ev ev;
            ev.head(op, "ok");
            ev.nums("r", r);
            std::vector<long> vals;
            long overlap = 0, mis = 0;
            for(int k = 1; k <= 10; k++) {
                vals.push_back(obj[k].on ? value(obj[k]) : -1);
                if(!obj[k].on) continue;
                if((uintptr_t)obj[k].p % obj[k].align) mis++;
                for(int j = 1; j < k; j++)
                    if(obj[j].on && obj[j].p < obj[k].p + obj[k].size && obj[k].p < obj[j].p + obj[j].size) overlap++;
            }
            ev.nums("obj", vals);
            ev.num("overlap", overlap);
            ev.num("misaligned", mis);
            ev.num("live", g_live);
            ev.num("blocks", g_blocks);
            ev.num("err", g_err);
            emit(ev);
        }
    }
};
} // namespace
int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        switch(sc[0].get("ty")) {
        case 0: Run<Tok>{}.go(sc); break;
        case 1: Run<One>{}.go(sc); break;
        case 2: Run<Forty>{}.go(sc); break;
        case 3: Run<Wide>{}.go(sc); break;
        default: Run<Two>{}.go(sc); break;
        }
    });
}
