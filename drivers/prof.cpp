// Concurrent driver for frame profiles (C17).
#include <fcntl.h>
#include <string.h>
#include <string>
#include <unistd.h>
#include <pthread.h>
#include <rpp/base.h>
#include <rpp/thread.h>
#include "cc.h"
using namespace cc;
namespace {
constexpr int TMAX = 6, NODES = 400, KIDS = 48;
using PA = rpp::Mallocator<"prof">;
struct Node {
    int name, kids;
    long parent, calls, heir, self, begin, end;
    long kid[KIDS];
};
struct Report {
    int n;
    struct {
        unsigned long who;
        int n;
        Node node[NODES];
    } th[TMAX];
};
Report reports[TMAX];
unsigned long ids[TMAX];
rpp::u64 t0;
// scope names: the same text at several places
char text[2][8][16];
rpp::Log::Location scope(int n, int copy) {
    const char* a = text[copy][n];
    if(n == 1) return {rpp::String_View{"Frame"}, rpp::String_View{""}, 7};
    if(n % 2 == 0) return {rpp::String_View{(const rpp::u8*)text[copy][0], strlen(text[copy][0])}, rpp::String_View{"f.cpp"}, (rpp::u64)n};
    return {rpp::String_View{(const rpp::u8*)a, strlen(a)}, rpp::String_View{""}, 0};
}
int name_of(const rpp::Log::Location& l) {
    for(int n = 1; n < 8; n++)
        if(scope(n, 0) == l) return n;
    return l.function == "Frame"_v && !l.file.length() && !l.line ? 0 : 99;
}
long ms(rpp::u64 t) {
    return (long)(t / 1000000) * (t % 1000000 ? 1000 : 1);
}
long since(rpp::u64 t) {
    return t ? ms(t - t0) : 0;
}
__attribute__((no_sanitize("thread"), noinline)) void record(Report& r, unsigned long id, const rpp::Profile::Timing_Node& nd) {
    int k = 0;
    while(k < r.n && r.th[k].who != id) k++;
    if(k == r.n) {
        if(r.n == TMAX) _Exit(96);
        r.n++;
        r.th[k].who = id;
        r.th[k].n = 0;
    }
    if(r.th[k].n == NODES) _Exit(96);
    Node& x = r.th[k].node[r.th[k].n++];
    x.name = name_of(nd.loc);
    x.parent = (long)nd.parent;
    x.calls = (long)nd.calls;
    x.heir = ms(nd.heir_time);
    x.self = ms(nd.self_time);
    x.begin = since(nd.begin);
    x.end = since(nd.end);
    x.kids = 0;
    for(rpp::u64 c : nd.children)
        if(x.kids < KIDS) x.kid[x.kids++] = (long)c;
}
struct Profs : Driver {
    int nt = 0, depth[TMAX] = {}, out[TMAX] = {};
    bool in[TMAX] = {};
    long base = 0;
    void setup(const Op& r) override {
        nt = (int)r.get("nt");
        dup2(open("/dev/null", O_WRONLY), 1);
        for(int c = 0; c < 2; c++)
            for(int n = 0; n < 8; n++) snprintf(text[c][n], 16, "scope%d", n);
        { rpp::Profile::exit(); } // registers the main thread
        t0 = rpp::Profile::timestamp();
        base = rt::arena_blocks() - rpp::sys_net_allocs();
        ids[0] = pthread_self();
    }
    void enter(int t) override {
        ids[t] = pthread_self();
    }
    void called(const Op& op, int t) {
        Ev(op.name.c_str(), t).str("k0", "c").args(op).num("now", since(rpp::Profile::timestamp())).emit();
    }
    void perform(int t, const Op& op) {
        const std::string& n = op.name;
        if(n == "fb" ? in[t] : n == "fe" ? !in[t] || depth[t] : n == "ex" ? !depth[t] && !out[t] : false) return;
        called(op, t);
        long v = 0;
        if(n == "fb") {
            float s = rpp::Profile::begin_frame();
            in[t] = true;
            v = (long)(s * 1000.0f + 0.5f);
        } else if(n == "fe") {
            rpp::Profile::end_frame();
            in[t] = false;
        } else if(n == "en") {
            int nm = (int)op.get("n");
            (in[t] ? depth : out)[t]++;
            int c = (depth[t] + t) % 2;
            if(nm % 2)
                nm == 1 ? rpp::Profile::enter(scope(nm, c)) : rpp::Profile::enter(scope(nm, c).function);
            else
                rpp::Profile::enter(scope(nm, c));
        } else if(n == "ex") {
            rpp::Profile::exit();
            (depth[t] ? depth : out)[t]--;
        } else if(n == "sl") {
            rpp::Thread::sleep((rpp::u64)op.get("d"));
        } else if(n == "al") {
            PA::free(PA::alloc(16));
        } else if(n == "it") {
            Report& r = reports[t];
            r.n = 0;
            bool first = true;
            int k = (int)op.get("k"), nm = (int)op.get("n");
            rpp::Profile::iterate_timings([&](rpp::Thread::Id id, const rpp::Profile::Timing_Node& nd) {
                record(r, id, nd);
                if(k == 1) PA::free(PA::alloc(8));
                if(k == 2 && first) {
                    rpp::Profile::enter(scope(nm, 1));
                    rpp::Profile::exit();
                }
                first = false;
            });
            Ev e(n.c_str(), t);
            e.str("k0", "r").args(op).num("v", 0).str("out", "ok");
            std::vector<long> who;
            std::string rep;
            for(int i = 0; i < r.n; i++) {
                long w = 99;
                for(int u = 0; u <= nt; u++)
                    if(ids[u] == r.th[i].who) w = u;
                who.push_back(w);
                rep += i ? ",[" : "[";
                for(int j = 0; j < r.th[i].n; j++) {
                    Node& x = r.th[i].node[j];
                    rep += j ? ",[" : "[";
                    for(long y : {(long)x.name, x.parent, x.calls, x.heir, x.self, x.begin, x.end}) rep += std::to_string(y) + ",";
                    rep += "[";
                    for(int c = 0; c < x.kids; c++) rep += (c ? "," : "") + std::to_string(x.kid[c]);
                    rep += "]]";
                }
                rep += "]";
            }
            e.nums("who", who);
            e.s += ",\"rep\":[" + rep + "]";
            e.emit();
            return;
        } else
            _Exit(96);
        ret(op, t, v);
    }
    void step(int t, const Op& op) override {
        perform(t, op);
    }
    void leave(int t) override {
        while(depth[t]) perform(t, Op{"ex", {}});
        called(Op{"gone", {}}, t);
    }
    void finish(bool) override {
        note("quiet", 0);
        perform(0, Op{"it", {{"k", 1}, {"n", 1}}});
        rpp::Profile::finalize();
        note("fini", 0, rpp::sys_net_allocs(), rt::arena_blocks() - base);
    }
};
} // namespace
int main(int argc, char** argv) {
    static Profs d;
    return drive(argc, argv, d);
}
