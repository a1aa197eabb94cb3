#include "cc.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" int __wrap_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

namespace cc {
long Op::get(const char* k, long dflt) const {
    for(auto& a : args)
        if(a.first == k) return a.second;
    return dflt;
}
bool Op::has(const char* k) const {
    for(auto& a : args)
        if(a.first == k) return true;
    return false;
}
constexpr size_t BUF = 4 << 20;
struct Shared {
    rt::Choices ch;
    long n;
    int done;
    char buf[BUF];
};
static Shared* sh = nullptr;
int at_op[64];
bool stuck = false;
static bool any_stuck = false;

Ev::Ev(const char* op, int t) {
    s = std::string("{\"op\":\"") + op + "\",\"t\":" + std::to_string(t);
}
Ev& Ev::num(const char* k, long v) {
    s += std::string(",\"") + k + "\":" + std::to_string(v);
    return *this;
}
Ev& Ev::str(const char* k, const std::string& v) {
    s += std::string(",\"") + k + "\":\"";
    for(unsigned char c : v) {
        if(c == '"' || c == '\\') {
            s += '\\';
            s += (char)c;
        } else if(c < 32 || c > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            s += b;
        } else
            s += (char)c;
    }
    s += '"';
    return *this;
}
Ev& Ev::nums(const char* k, const std::vector<long>& v) {
    s += std::string(",\"") + k + "\":[";
    for(size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
    s += "]";
    return *this;
}
Ev& Ev::args(const Op& op) {
    for(auto& a : op.args)
        if(a.first != "t") num(a.first.c_str(), a.second);
    return *this;
}
void Ev::emit() {
    s += "}\n";
    if(sh->n + s.size() > BUF) _exit(97);
    memcpy(sh->buf + sh->n, s.data(), s.size());
    sh->n += (long)s.size();
}
void Ev::emit_first() {
    s += "}\n";
    if(sh->n + s.size() > BUF) _exit(97);
    memmove(sh->buf + s.size(), sh->buf, (size_t)sh->n);
    memcpy(sh->buf, s.data(), s.size());
    sh->n += (long)s.size();
}
void call(const Op& op, int t) {
    Ev(op.name.c_str(), t).str("k0", "c").args(op).emit();
}
void ret(const Op& op, int t, long v, const char* out) {
    Ev(op.name.c_str(), t).str("k0", "r").args(op).num("v", v).str("out", out).emit();
}
void note(const char* op, int t, long a, long b) {
    Ev(op, t).str("k0", "n").num("a", a).num("b", b).emit();
}
void forget_events() {
    sh->n = 0;
}
void err(const char* what, const char* detail) {
    Ev("err", rt::self()).str("k0", "e").str("what", what).str("detail", detail).emit();
    sh->done = 1;
    _exit(0);
}
//////////////////////////////////////////////////////////////////////////////// payload
static long n_live = 0, n_made = 0;
static std::vector<char> alive;
static int tok() {
    alive.push_back(1);
    n_live++;
    n_made++;
    return (int)alive.size() - 1;
}
long live() {
    return n_live;
}
long made() {
    return n_made;
}
static void born(Pay* p, int v) {
    if(rt::arena_freed(p)) err("payload", "construction in freed memory");
    if(rt::own_stack(p)) rt::data_forget(p, sizeof(Pay)); // stacks are reused
    rt::data_write(p, sizeof(Pay));
    p->v = v;
    p->id = tok();
    p->self = p;
}
static void steal(Pay* p, Pay& o, bool fresh) {
    if(rt::arena_freed(&o) || rt::arena_freed(p)) err("payload", "move from or to freed memory");
    if(o.self != &o) err("payload", "move from an object that is not there");
    rt::data_write(&o, sizeof(Pay));
    if(fresh && rt::own_stack(p)) rt::data_forget(p, sizeof(Pay));
    rt::data_write(p, sizeof(Pay));
    p->v = o.v;
    p->id = o.id;
    p->self = p;
    o.id = -1;
}
static void release(Pay* p) {
    if(rt::arena_freed(p)) err("payload", "destruction in freed memory");
    if(p->self != p) err("payload", "destruction of an object that is not there");
    rt::data_write(p, sizeof(Pay));
    if(p->id >= 0) {
        if(!alive[(size_t)p->id]) err("payload", "double destruction");
        alive[(size_t)p->id] = 0;
        n_live--;
    }
    p->id = -1;
}
Pay::Pay() {
    born(this, 0);
}
Pay::Pay(int x) {
    born(this, x);
}
Pay::Pay(Pay&& o) noexcept {
    steal(this, o, true);
}
Pay::Pay(const Pay& o) {
    int x = o.value();
    born(this, x);
}
Pay& Pay::operator=(Pay&& o) noexcept {
    if(this != &o) {
        release(this);
        steal(this, o, false);
    }
    return *this;
}
Pay& Pay::operator=(const Pay& o) {
    if(this != &o) {
        int x = o.value();
        release(this);
        born(this, x);
    }
    return *this;
}
Pay::~Pay() {
    release(this);
    self = nullptr;
}
int Pay::value() const {
    if(rt::arena_freed(this)) err("payload", "read in freed memory");
    if(self != this) err("payload", "read of an object that is not there");
    rt::data_read(this, sizeof(Pay));
    if(id < 0) return -1; // moved from
    return v;
}
void Pay::set(int x) {
    if(self != this) err("payload", "write to an object that is not there");
    rt::data_write(this, sizeof(Pay));
    v = x;
}
//////////////////////////////////////////////////////////////////////////////// execution
struct Prog {
    Driver* d;
    int t;
    std::vector<Op> ops;
};
static void* program(void* p) {
    Prog& g = *(Prog*)p;
    g.d->enter(g.t);
    for(size_t i = 0; i < g.ops.size(); i++) {
        at_op[g.t] = (int)i + 1;
        g.d->step(g.t, g.ops[i]);
    }
    g.d->leave(g.t);
    at_op[g.t] = 0;
    return nullptr;
}
static int n_prog = 0;
static Driver* drv = nullptr;
static void final_event(bool main_stuck) {
    std::vector<long> s;
    stuck = false;
    for(int i = 1; i <= n_prog; i++)
        if(at_op[i]) stuck = true;
    if(!main_stuck) drv->finish(stuck);
    for(int i = 1; i <= n_prog; i++) s.push_back(at_op[i]);
    Ev("stuck", 0).str("k0", "n").nums("at", s).num("main", main_stuck).emit();
    sh->ch.steps = 0;
    sh->done = 1;
    _exit(0);
}
static void on_error(const char* what, const char* detail) {
    err(what, detail);
}
static void on_stuck() {
    final_event(true);
}
static void child(const Script& sc, const rt::Config& cfg, Driver& d) {
    signal(SIGTRAP, SIG_DFL);
    alarm(20);
    rt::on_error = on_error;
    rt::on_stuck = on_stuck;
    drv = &d;
    std::vector<Prog*> ps;
    for(size_t i = 1; i < sc.size(); i++) {
        int t = (int)sc[i].get("t", 1);
        while((int)ps.size() < t) ps.push_back(new Prog{&d, (int)ps.size() + 1, {}});
        ps[(size_t)t - 1]->ops.push_back(sc[i]);
    }
    n_prog = (int)ps.size();
    rt::start(cfg, &sh->ch);
    d.setup(sc[0]);
    for(auto p : ps) at_op[p->t] = 1;
    for(auto p : ps) {
        pthread_t id;
        __wrap_pthread_create(&id, nullptr, program, p);
        pthread_detach(id);
    }
    rt::drain();
    final_event(false);
}
static std::vector<Script> read_scripts(const char* path) {
    std::vector<Script> r;
    FILE* f = fopen(path, "r");
    if(!f) exit(2);
    static char line[65536];
    while(fgets(line, sizeof line, f)) {
        Op op;
        char* save = nullptr;
        for(char* t = strtok_r(line, " \t\n", &save); t; t = strtok_r(nullptr, " \t\n", &save)) {
            if(op.name.empty()) {
                op.name = t;
                continue;
            }
            char* eq = strchr(t, '=');
            if(!eq) exit(2);
            *eq = 0;
            op.args.push_back({t, strtol(eq + 1, nullptr, 10)});
        }
        if(op.name.empty() || op.name == "end") continue;
        if(op.name == "reset") r.push_back({});
        r.back().push_back(op);
    }
    fclose(f);
    return r;
}
static FILE* out = nullptr;
static std::unordered_set<std::string> seen;
static long n_exec = 0, n_new = 0;
// one execution; false if the script cannot go on
static long si = -1;
static void execute(const Script& sc, const rt::Config& cfg, Driver& d, const std::string& how) {
    sh->n = 0;
    sh->done = 0;
    n_exec++;
    fflush(out); // a child that exits must not write it again
    pid_t pid = fork();
    if(pid < 0) exit(2);
    if(pid == 0) {
        child(sc, cfg, d);
        _exit(99);
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    std::string body(sh->buf, (size_t)sh->n);
    if(!sh->done || !WIFEXITED(st) || WEXITSTATUS(st)) {
        if(WIFEXITED(st) && WEXITSTATUS(st) >= 90) {
            fprintf(stderr, "harness failure %d\n", WEXITSTATUS(st));
            exit(2);
        }
        const char* w = "exit";
        if(WIFSIGNALED(st)) w = WTERMSIG(st) == SIGTRAP ? "die" : WTERMSIG(st) == SIGALRM ? "hang" : "crash";
        body += std::string("{\"op\":\"err\",\"t\":0,\"k0\":\"e\",\"what\":\"") + w + "\",\"detail\":\"" +
                (WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "") + "\"}\n";
    }
    if(!seen.insert(body).second) return;
    n_new++;
    std::string head = "{\"op\":\"reset\",\"si\":" + std::to_string(si);
    for(auto& a : sc[0].args) head += ",\"" + a.first + "\":" + std::to_string(a.second);
    head += ",\"how\":\"" + how + "\"}\n";
    fwrite(head.data(), 1, head.size(), out);
    fwrite(body.data(), 1, body.size(), out);
}
int drive(int argc, char** argv, Driver& d) {
    if(argc < 3) return 2;
    signal(SIGPIPE, SIG_IGN);
    auto scripts = read_scripts(argv[1]);
    out = fopen(argv[2], "w");
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // one processor: handing over between threads is then cheap
    cpu_set_t all, one;
    sched_getaffinity(0, sizeof all, &all);
    int n = CPU_COUNT(&all), want = n && getenv("VERIF_CPU") ? atoi(getenv("VERIF_CPU")) % n : 0;
    CPU_ZERO(&one);
    for(int i = 0, k = 0; i < CPU_SETSIZE; i++)
        if(CPU_ISSET(i, &all) && k++ == want) CPU_SET(i, &one);
    sched_setaffinity(0, sizeof one, &one);
    for(auto& sc : scripts) {
        seen.clear();
        si++;
        const Op& r = sc[0];
        rt::Config c;
        c.cores = (int)r.get("cores", 2);
        c.faults = (int)r.get("faults", 0);
        c.still = (int)r.get("still", 0);
        c.reuse = (int)r.get("reuse", 0);
        c.max_steps = r.get("steps", 100000);
        c.bound = (int)r.get("bound", 2);
        long est = 300;
        // exhaustive within the preemption bound, up to a budget
        long dfs = r.get("dfs", 0);
        std::vector<uint8_t> prefix;
        bool complete = false;
        for(long i = 0; i < dfs; i++) {
            c.mode = 2;
            c.plain = 0;
            sh->ch.prefix_n = (int)prefix.size();
            if(!prefix.empty()) memcpy(sh->ch.prefix, prefix.data(), prefix.size());
            execute(sc, c, d, "dfs " + std::to_string(i));
            est = std::max(20, sh->ch.n * 2);
            int k = sh->ch.n - 1;
            while(k >= 0 && sh->ch.c[k].chosen + 1 >= sh->ch.c[k].options) k--;
            if(k < 0) {
                complete = true;
                break;
            }
            prefix.clear();
            for(int j = 0; j < k; j++) prefix.push_back(sh->ch.c[j].chosen);
            prefix.push_back((uint8_t)(sh->ch.c[k].chosen + 1));
        }
        // random walks and priority schedules
        long rnd = complete && !c.faults ? r.get("rnd", 0) / 4 : r.get("rnd", 0);
        for(long i = 0; i < rnd; i++) {
            c.seed = (uint64_t)r.get("seed", 1) * 100003ull + (uint64_t)i;
            c.mode = i % 3 == 2 ? 1 : 0;
            c.plain = i % 4 == 1;
            c.est_steps = est;
            execute(sc, c, d, "rnd " + std::to_string(i));
        }
    }
    fclose(out);
    fprintf(stderr, "EXECUTIONS %ld HISTORIES %ld\n", n_exec, n_new);
    return 0;
}
} // namespace cc
