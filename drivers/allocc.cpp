// Concurrent driver for allocation accounting (C16).
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <rpp/base.h>
#include <rpp/thread.h>
#include "cc.h"
using namespace cc;
namespace {
constexpr int NTMAX = 6, NVMAX = 4, NK = 3;
using A0 = rpp::Mallocator<"zero", false>;
using A1 = rpp::Mallocator<"one">;
using A2 = rpp::Mallocator<"two">;
using A3 = rpp::Mallocator<"three">;
const char* names[NK + 1] = {"zero", "one", "two", "three"};
void* get(int k, rpp::u64 n) {
    return k == 0 ? A0::alloc(n) : k == 1 ? A1::alloc(n) : k == 2 ? A2::alloc(n) : A3::alloc(n);
}
void put(int k, void* p) {
    k == 0 ? A0::free(p) : k == 1 ? A1::free(p) : k == 2 ? A2::free(p) : A3::free(p);
}
struct Obj {
    bool on;
    int k;
    void* p;
};
Obj var[NTMAX][NVMAX];
Obj box[NTMAX][64];
int head_[NTMAX], tail_[NTMAX];
rpp::Thread::Mutex mu[NTMAX];
struct Allocs : Driver {
    int nt = 0, nv = 0, fd = -1;
    long base = 0;
    void setup(const Op& r) override {
        nt = (int)r.get("nt");
        nv = (int)r.get("nv");
        fd = memfd_create("out", 0);
        dup2(fd, 1);
        base = rt::arena_blocks() - rpp::sys_net_allocs();
    }
    void perform(int t, const Op& op) {
        const std::string& n = op.name;
        Obj* v = var[t];
        int j = (int)op.get("j", 1) - 1, u = (int)op.get("u");
        bool has = v[j].on;
        if((n == "al" || n == "take") == has) return;
        call(op, t);
        long r = 0;
        if(n == "al")
            v[j] = Obj{true, (int)op.get("k"), get((int)op.get("k"), (rpp::u64)op.get("n"))};
        else if(n == "fr") {
            put(v[j].k, v[j].p);
            v[j].on = false;
        } else if(n == "give") {
            rpp::Thread::Lock lk(mu[u]);
            box[u][tail_[u]++ % 64] = v[j];
            v[j].on = false;
        } else if(n == "take") {
            rpp::Thread::Lock lk(mu[t]);
            if(head_[t] < tail_[t]) {
                v[j] = box[t][head_[t]++ % 64];
                r = 1;
            }
        } else
            _Exit(96);
        ret(op, t, r);
    }
    void step(int t, const Op& op) override {
        perform(t, op);
    }
    void finish(bool) override {
        note("quiet", 0, rpp::sys_net_allocs(), rt::arena_blocks() - base);
        for(int t = 1; t <= nt; t++) {
            for(int j = 1; j <= nv; j++) perform(t, Op{"fr", {{"j", j}}});
            while(head_[t] < tail_[t]) {
                perform(t, Op{"take", {{"j", 1}}});
                perform(t, Op{"fr", {{"j", 1}}});
            }
        }
        note("quiet", 0, rpp::sys_net_allocs(), rt::arena_blocks() - base);
        rpp::Profile::finalize();
        long net = rpp::sys_net_allocs(), real = rt::arena_blocks() - base;
        fflush(stdout);
        static char buf[65536];
        ssize_t len = pread(fd, buf, sizeof buf - 1, 0);
        buf[len > 0 ? len : 0] = 0;
        long row[7] = {};
        auto flush = [&] {
            if(row[0])
                Ev("row", 0).str("k0", "n").num("k", row[0]).num("al", row[1]).num("fr", row[2]).num("hi", row[3]).num("as", row[4]).num("fs", row[5]).num("unb", row[6]).emit();
            memset(row, 0, sizeof row);
        };
        const char* keys[7] = {"", "\tAllocs: ", "\tFrees: ", "\tHigh water: ", "\tAlloc size: ", "\tFree size: ", "\tUnbalanced size: "};
        for(char *save = nullptr, *ln = strtok_r(buf, "\n", &save); ln; ln = strtok_r(nullptr, "\n", &save)) {
            char* m = strstr(ln, "]: ");
            if(!m) continue;
            m += 3;
            if(!strncmp(m, "Allocation stats for [", 22)) {
                flush();
                row[0] = -1;
                for(int k = 1; k <= NK; k++)
                    if(!strncmp(m + 22, names[k], strlen(names[k])) && m[22 + strlen(names[k])] == ']') row[0] = k;
            }
            for(int i = 1; i < 7; i++)
                if(!strncmp(m, keys[i], strlen(keys[i]))) row[i] = strtol(m + strlen(keys[i]), nullptr, 10);
            if(!strncmp(m, "No memory leaked", 16)) flush();
        }
        flush();
        note("fini", 0, net, real);
    }
};
} // namespace
int main(int argc, char** argv) {
    Allocs d;
    return drive(argc, argv, d);
}
