// Concurrent driver for the log (C18).
#include <dirent.h>
#include <pthread.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <rpp/base.h>
#include <rpp/log_callback.h>
#include <rpp/thread.h>
#include "cc.h"
using namespace cc;
namespace {
constexpr int TMAX = 6, IDMAX = 64;
using LA = rpp::Mallocator<"log", false>;
struct Cur {
    long l, k, m;
    const char* fn;
    unsigned long line;
};
Cur cur[TMAX];
unsigned long ids[TMAX];
int nt;
char big[5000];
std::string text(long k, long m) {
    if(k) return "message " + std::to_string(m) + " of {1, " + std::to_string(m + 1) + "}!";
    const char* t[] = {"", "x", "50% of %s %n", big, "two\nlines", "\033[1mbold\033[0m"};
    return t[m % 6];
}
constexpr long NTEXT = 6;
// bookkeeping is uninstrumented
__attribute__((no_sanitize("thread"), noinline)) void seen(long id, rpp::Log::Level lv, rpp::Thread::Id th, rpp::Log::Time time,
                                                           const rpp::Log::Location& loc, rpp::String_View msg) {
    int t = 0;
    for(int u = 0; u <= nt; u++)
        if(ids[u] == th) t = u;
    std::string x((const char*)msg.data(), msg.length());
    long k = 9, m = 99;
    for(int i = 0; i < 2; i++)
        for(long j = 0; j < NTEXT; j++)
            if(x == text(i, j)) k = i, m = j;
    auto eq = [](rpp::String_View v, const char* c) { return v.length() == strlen(c) && !memcmp(v.data(), c, v.length()); };
    const Cur& c = cur[t];
    long now = ::time(nullptr);
    bool ok = (long)time >= now - 3600 && (long)time <= now && ids[t] == th && eq(loc.function, c.fn) && loc.line == c.line &&
              eq(loc.file, c.k ? "log.cpp" : "far.cpp");
    Ev("cb", t).str("k0", "n").num("id", id).num("l", (long)lv).num("k", k).num("m", m).num("ok", ok).emit();
}
struct Callback {
    long id;
    int kind;
    Pay p;
    void operator()(rpp::Log::Level lv, rpp::Thread::Id th, rpp::Log::Time time, rpp::Log::Location loc, rpp::String_View msg) {
        if(p.value() != (int)id) err("callback", "not alive");
        if(kind == 1) LA::free(LA::alloc(24));
        if(kind == 2) {
            rpp::Profile::Scope sc{"callback"_v};
        }
        seen(id, lv, th, time, loc, msg);
    }
};
rpp::Log::Token tokens[IDMAX];
bool have[IDMAX];
struct Logs : Driver {
    int so = -1, fi = -1;
    long base = 0;
    int depth[TMAX] = {};
    void setup(const Op& r) override {
        nt = (int)r.get("nt");
        memset(big, 'y', sizeof big - 1);
        so = memfd_create("out", 0);
        fi = memfd_create("log", 0);
        fflush(stdout);
        dup2(so, 1);
        DIR* d = opendir("/proc/self/fd");
        bool found = false;
        while(dirent* e = readdir(d)) {
            char p[64], b[4096];
            snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name);
            ssize_t n = readlink(p, b, sizeof b - 1);
            if(n > 0 && (b[n] = 0, strstr(b, "/debug.log"))) {
                dup2(fi, atoi(e->d_name));
                found = true;
            }
        }
        closedir(d);
        if(!found) err("setup", "no log file");
        ids[0] = pthread_self();
        tzset();
        { // everything the library sets up once
            rpp::Thread::Mutex m;
            rpp::Thread::Lock lk(m);
        }
        base = rt::arena_blocks() - rpp::sys_net_allocs();
    }
    void enter(int t) override {
        ids[t] = pthread_self();
    }
    __attribute__((no_sanitize("thread"), noinline)) bool begin(int t, const Op& op) {
        const std::string& n = op.name;
        long id = op.get("id");
        if(n == "unsub" && !have[id]) return false;
        if(n == "out" && !depth[t]) return false;
        if(n == "unsub") have[id] = false;
        call(op, t);
        return true;
    }
    __attribute__((no_sanitize("thread"), noinline)) void subbed(long id, rpp::Log::Token k) {
        tokens[id] = k;
        have[id] = true;
    }
    void log(int t, long l, long k, long m) {
        Cur& c = cur[t];
        c.l = l, c.k = k, c.m = m;
        rpp::Log::Level lv = l == 0 ? rpp::Log::Level::info : l == 1 ? rpp::Log::Level::warn : rpp::Log::Level::fatal;
        if(k == 0) {
            c.fn = "far function";
            c.line = (unsigned long)(t * 100 + m);
            std::string x = text(k, m);
            rpp::Log::output(lv, rpp::Log::Location{"far function"_v, "far.cpp"_v, c.line},
                             rpp::String_View{(const rpp::u8*)x.data(), x.size()});
            return;
        }
        c.fn = __PRETTY_FUNCTION__;
        rpp::i64 a = m, b = m + 1;
        // clang-format off
        if(l == 0) { c.line = __LINE__; info("message % of {%, %}!", a, 1, b); }
        if(l == 1) { c.line = __LINE__; warn("message % of {%, %}!", a, 1, b); }
        if(l == 2) { c.line = __LINE__; rpp::Log::log(lv, RPP_HERE, "message % of {%, %}!"_v, a, 1, b); }
        // clang-format on
    }
    void perform(int t, const Op& op) {
        const std::string& n = op.name;
        if(!begin(t, op)) return;
        long r = 0, id = op.get("id");
        if(n == "in" || n == "out") {
            // scopes are objects of the thread that opens and closes them
            static char mem[TMAX][64];
            if(n == "in")
                new(&mem[t][depth[t]++]) rpp::Log::Scope;
            else
                reinterpret_cast<rpp::Log::Scope*>(&mem[t][--depth[t]])->~Scope();
        } else if(n == "sub") {
            rpp::Log::Token k = 0;
            if(op.get("c") == 0) {
                rpp::Function<rpp::Log::Callback> f{Callback{id, 0, Pay{(int)id}}};
                k = rpp::Log::subscribe(rpp::move(f));
            } else
                k = rpp::Log::subscribe(Callback{id, (int)op.get("c"), Pay{(int)id}});
            r = (long)k;
            ret(op, t, r);
            subbed(id, k);
            return;
        } else if(n == "unsub")
            rpp::Log::unsubscribe(tokens[id]);
        else if(n == "log")
            log(t, op.get("l"), op.get("k"), op.get("m"));
        else
            _Exit(96);
        ret(op, t, r);
    }
    void step(int t, const Op& op) override {
        perform(t, op);
    }
    void leave(int t) override {
        while(depth[t]) perform(t, Op{"out", {}});
    }
    // the lines of a sink, as lists of thread, level, indentation, kind and text
    static std::string parse(int fd) {
        static char buf[1 << 20];
        ssize_t len = pread(fd, buf, sizeof buf - 1, 0);
        std::string b(buf, len > 0 ? (size_t)len : 0), r = "[";
        size_t i = 0;
        const char* lv[] = {"info", "warn", "fatal"};
        while(i < b.size()) {
            long best[5] = {99, 99, 99, 99, 99};
            size_t end = 0;
            for(int l = 0; l < 3 && !end; l++)
                for(int t = 0; t <= nt && !end; t++) {
                    char at[64];
                    snprintf(at, sizeof at, " [%s/%lu] [", lv[l], ids[t]);
                    size_t p = i;
                    std::string tail = "\n";
                    if(l) {
                        if(b.compare(p, 7, "\033[0;31m")) continue;
                        p += 7;
                        tail = "\033[0m\n";
                    }
                    int hh, mm, ss, n = 0;
                    if(sscanf(b.c_str() + p, "[%2d:%2d:%2d]%n", &hh, &mm, &ss, &n) != 3 || n != 10) continue;
                    p += 10;
                    if(b.compare(p, strlen(at), at)) continue;
                    p += strlen(at);
                    size_t q = b.find("]: ", p);
                    if(q == std::string::npos) continue;
                    std::string loc = b.substr(p, q - p);
                    p = q + 3;
                    size_t sp = 0;
                    while(b[p + sp] == ' ') sp++;
                    p += sp;
                    for(long k = 0; k < 2 && !end; k++)
                        for(long m = 0; m < NTEXT; m++) {
                            std::string x = text(k, m) + tail;
                            if(b.compare(p, x.size(), x)) continue;
                            if(k == 0 ? loc != "far.cpp:" + std::to_string(t * 100 + m) : loc.compare(0, 8, "log.cpp:")) continue;
                            long w = 0;
                            while(ids[w] != ids[t]) w++;
                            long v[5] = {w, l, sp % 4 ? 99 : (long)sp / 4, k, m};
                            memcpy(best, v, sizeof v);
                            end = p + x.size();
                            break;
                        }
                }
            if(r.size() > 1) r += ",";
            r += "[";
            for(int j = 0; j < 5; j++) r += (j ? "," : "") + std::to_string(best[j]);
            r += "]";
            if(!end) break;
            i = end;
        }
        return r + "]";
    }
    void finish(bool) override {
        note("quiet", 0, live());
        perform(0, Op{"log", {{"l", 1}, {"k", 0}, {"m", 1}}});
        for(int i = 0; i < IDMAX; i++) perform(0, Op{"unsub", {{"id", i}}});
        perform(0, Op{"log", {{"l", 0}, {"k", 1}, {"m", 2}}});
        note("quiet", 0, live());
        Ev e("plan", 0);
        e.str("k0", "n");
        fflush(stdout);
        std::vector<long> same; // threads that had the same identifier, one after the other
        for(int t = 0; t <= nt; t++) {
            int u = 0;
            while(ids[u] != ids[t]) u++;
            same.push_back(u);
        }
        e.nums("same", same);
        e.s += ",\"so\":" + parse(so) + ",\"fi\":" + parse(fi);
        e.emit_first();
        note("sinks", 0);
        rpp::Profile::finalize();
        note("fini", 0, rpp::sys_net_allocs(), rt::arena_blocks() - base);
    }
};
} // namespace
int main(int argc, char** argv) {
    static Logs d;
    return drive(argc, argv, d);
}
