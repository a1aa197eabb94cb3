// Conformance driver for allocation accounting (C16). malloc is replaced at link time by one that
// counts and reuses addresses as soon as it can.
#include <algorithm>
#include <string>
#include <sys/wait.h>
#include "common.h"
#include <rpp/log_callback.h>
using namespace drv;
using rpp::u64;
using rpp::u8;
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
static long n_blocks = 0, n_bad = 0;
struct Head {
    size_t cls;
    long magic;
};
static void* spare[64];
void* __wrap_malloc(size_t n) {
    size_t c = 4;
    while((size_t(1) << c) < n) c++;
    void* p = spare[c];
    if(p)
        spare[c] = *(void**)p;
    else {
        char* q = (char*)__real_malloc(sizeof(Head) + (size_t(1) << c));
        p = q + sizeof(Head);
        ((Head*)q)->cls = c;
    }
    ((Head*)p)[-1].magic = 0x1234;
    memset(p, 0xA5, n < 4096 ? n : 4096);
    n_blocks++;
    return p;
}
void __wrap_free(void* p) {
    if(!p) return;
    Head& h = ((Head*)p)[-1];
    if(h.magic != 0x1234) {
        n_bad++;
        return;
    }
    h.magic = 0x4321;
    *(void**)p = spare[h.cls];
    spare[h.cls] = p;
    n_blocks--;
}
}
namespace {
constexpr int NK = 12, NO = 61;
template<rpp::Literal L> struct Al {
    using A = rpp::Mallocator<L>;
    static void* get(u64 n) {
        return A::alloc(n);
    }
    static void put(void* p) {
        A::free(p);
    }
};
using Quiet = rpp::Mallocator<"Quiet", false>;
void* raw_get(u64 n) {
    return rpp::sys_alloc(n);
}
void raw_put(void* p) {
    rpp::sys_free(p);
}
struct Entry {
    const char* name;
    void* (*get)(u64);
    void (*put)(void*);
};
#define E(N) {N, Al<N>::get, Al<N>::put}
Entry names[NK + 1] = {{"", Quiet::alloc, Quiet::free}, E("A"), E("AA"), E("B"), E("A name with spaces"), E("Default2"), E("x1"), E("x2"), E("x3"),
                       E("x4"), E("x5"), E("x6"), E("a long name of 30 characters...")};
struct Obj {
    bool on = false;
    int k = 0;
    char* p = nullptr;
    u64 n = 0;
};
Obj obj[NO + 1];
long fins_run = 0;
constexpr rpp::Region RG = 77;
using Scope = rpp::Region_Allocator::Scope<RG>;
std::vector<Scope*> scopes;
void mark(const Obj& o, int id) {
    memset(o.p, id, o.n);
}
bool intact(const Obj& o, int id) {
    for(u64 i = 0; i < o.n; i++)
        if(o.p[i] != (char)id) return false;
    return true;
}
void drop(Obj& o) {
    if(o.k || o.n % 3)
        names[o.k].put(o.p);
    else
        raw_put(o.p);
    o.on = false;
}
void busy(int k) {
    void* p = names[k].get(24);
    names[k].put(p);
}
// what finalization prints and does, in a process of its own
struct Report {
    long real, fins, rc, fins_end;
    int again_at;
    long done;
};
void report(Ev& ev) {
    auto* sh = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int fd = memfd_create("out", 0);
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0) {
        dup2(fd, 1);
        static Report* s = sh;
        atexit([] { s->real = n_blocks; s->fins = fins_run; });
        rpp::Profile::finalize();
        sh->real = n_blocks;
        sh->done = 1;
        fflush(nullptr);
        printf("AGAIN\n");
        fflush(nullptr);
        rpp::Profile::finalize();
        fflush(nullptr);
        sh->fins = fins_run;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    long rc = WIFEXITED(st) ? WEXITSTATUS(st) : WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : -1;
    std::string text;
    char buf[65536];
    lseek(fd, 0, SEEK_SET);
    for(ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) text.append(buf, (size_t)n);
    close(fd);
    long net = -1, rsize = -1, rdepth = -1, again = 0, extra = 0;
    std::vector<std::vector<long>> rows;
    bool second = false;
    for(size_t i = 0; i < text.size();) {
        size_t e = text.find('\n', i);
        if(e == std::string::npos) e = text.size();
        std::string line = text.substr(i, e - i);
        i = e + 1;
        if(line == "AGAIN") {
            second = true;
            continue;
        }
        size_t c = line.find("]: ");
        if(c == std::string::npos) {
            extra++;
            continue;
        }
        std::string m = line.substr(c + 3);
        if(size_t z = m.find("\033[0m"); z != std::string::npos) m.resize(z);
        auto val = [&](const char* key, long& out) {
            if(m.compare(0, strlen(key), key)) return false;
            out = strtol(m.c_str() + strlen(key), nullptr, 10);
            return true;
        };
        long v = 0;
        if(!m.compare(0, 22, "Allocation stats for [")) {
            if(second) again++;
            std::string nm = m.substr(22, m.rfind("]:") - 22);
            long k = -1;
            for(int j = 1; j <= NK; j++)
                if(nm == names[j].name) k = j;
            rows.push_back({k, -1, -1, -1, -1, -1, 0});
        } else if(second)
            continue;
        else if(m[0] == '\t' && rows.empty())
            extra++;
        else if(val("\tAllocs: ", v))
            rows.back()[1] = v;
        else if(val("\tFrees: ", v))
            rows.back()[2] = v;
        else if(val("\tHigh water: ", v))
            rows.back()[3] = v;
        else if(val("\tAlloc size: ", v))
            rows.back()[4] = v;
        else if(val("\tFree size: ", v))
            rows.back()[5] = v;
        else if(val("\tUnbalanced size: ", v))
            rows.back()[6] = v;
        else if(val("Unbalanced allocations: ", net) || val("Unbalanced region size: ", rsize) || val("Unbalanced regions: ", rdepth))
            ;
        else if(m == "No memory leaked.")
            net = 0;
        else if(m == "No region memory leaked.")
            rsize = 0;
        else if(m == "No regions leaked.")
            rdepth = 0;
    }
    if(second) rows.resize(rows.size() - (size_t)again);
    std::sort(rows.begin(), rows.end());
    std::string rs = "[";
    for(size_t i = 0; i < rows.size(); i++) rs += (i ? "," : "") + Ev::arr(rows[i]);
    ev.raw("rows", rs + "]");
    ev.num("net", net);
    ev.num("real", sh->real);
    ev.num("fins", sh->fins);
    ev.num("rsize", rsize);
    ev.num("rdepth", rdepth);
    ev.num("rc", rc);
    ev.num("again", again);
    munmap(sh, sizeof(Report));
}
void go(const Script& sc) {
    rpp::Log::Token tok = 0;
    for(size_t i = 0; i < sc.size(); i++) {
        const Op& op = sc[i];
        begin_op((long)i);
        const std::string& n = op.name;
        int k = (int)op.get("k"), o = (int)op.get("o");
        u64 sz = (u64)op.get("n");
        int id = 1;
        while(id < NO && obj[id].on) id++;
        Ev ev;
        if(n == "al") {
            obj[id] = {true, k, (char*)(k || sz % 2 ? names[k].get(sz) : raw_get(sz)), sz};
            mark(obj[id], id);
        } else if(n == "fr")
            drop(obj[o]);
        else if(n == "az") {
            if(names[k].get(0)) n_bad++;
        } else if(n == "fz")
{
            names[k].put(nullptr);
            if(!k) rpp::sys_free(nullptr);
        }
        else if(n == "fin")
            rpp::Profile::finalizer([o] {
                fins_run++;
                if(o && obj[o].on) drop(obj[o]);
            });
        else if(n == "rb")
            scopes.push_back(new Scope{});
        else if(n == "ra")
            memset(rpp::Region_Allocator::alloc(RG, sz), 0x77, sz);
        else if(n == "re")
        {
            delete scopes.back();
            scopes.pop_back();
        }
        else if(n == "fb")
            (void)rpp::Profile::begin_frame();
        else if(n == "fe")
            rpp::Profile::end_frame();
        else if(n == "sub")
            tok = rpp::Log::subscribe([k](rpp::Log::Level, rpp::Thread::Id, rpp::Log::Time, rpp::Log::Location, rpp::String_View) { if(k) busy(k); });
        else if(n == "unsub")
            rpp::Log::unsubscribe(tok);
        else if(n == "log")
            info("hello %", 5);
        ev.head(op, "ok");
        if(n == "end")
            report(ev);
        else if(n != "reset") {
            long mine = 0;
            for(int j = 1; j < NO; j++) mine += obj[j].on, n_bad += obj[j].on && !intact(obj[j], j);
            ev.num("net", (long)rpp::sys_net_allocs());
            ev.num("real", n_blocks);
            ev.num("mine", mine);
            ev.num("bad", n_bad);
        }
        emit(ev);
    }
}
} // namespace
int main(int argc, char** argv) {
    return drive(argc, argv, go);
}
