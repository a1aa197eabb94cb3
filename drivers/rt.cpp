#include "rt.h"
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>

#define REAL(r, f, ...) extern "C" r __real_##f(__VA_ARGS__)
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
REAL(int, pthread_join, pthread_t, void**);
REAL(int, pthread_detach, pthread_t);
REAL(void*, malloc, size_t);
REAL(void, free, void*);
REAL(ssize_t, read, int, void*, size_t);
REAL(ssize_t, write, int, const void*, size_t);
REAL(int, close, int);
REAL(int, eventfd, unsigned, int);
REAL(int, epoll_create1, int);
REAL(int, epoll_ctl, int, int, int, struct epoll_event*);
REAL(int, epoll_wait, int, struct epoll_event*, int, int);
REAL(int, poll, struct pollfd*, nfds_t, int);
REAL(long, sysconf, int);
REAL(int, clock_gettime, clockid_t, struct timespec*);

namespace rt {
constexpr int MAXT = 48;
void (*on_error)(const char*, const char*) = nullptr;
void (*on_stuck)() = nullptr;
void (*on_join)() = nullptr;

struct VC {
    uint32_t c[MAXT] = {};
    void join(const VC& o) {
        for(int i = 0; i < MAXT; i++)
            if(o.c[i] > c[i]) c[i] = o.c[i];
    }
    void clear() {
        memset(c, 0, sizeof c);
    }
};
enum State { NONE, READY, BLOCKED, IOWAIT, DRAIN, DONE };
struct Thr {
    State st = NONE;
    uint32_t go = 0;
    const void* addr = nullptr;
    uint64_t deadline = 0; // virtual time, 0 none
    bool timed_out = false;
    bool woken = false;
    pthread_t id = 0;
    bool joined = false, detached = false, exited = false;
    void* ret = nullptr;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    VC vc, acq, rel;
    VC end;
    long prio = 0;
    int core = -1;
    uintptr_t stack_lo = 0, stack_hi = 0;
};
static Thr T[MAXT];
static int NTHR = 0;
static int cur = 0;
static bool on = false;
static bool dead = false;
static Config C;
static Choices* CH = nullptr;
static uint64_t rng;
static long steps = 0, streak = 0;
static int preemptions = 0;
static uint64_t clock_ns = 1000000000ull;
static uint32_t switch_p = 4; // random mode: switch with probability 1/switch_p
static std::vector<long> change; // steps at which priorities change (mode 1)
static long low_prio = -1;
static thread_local int me = -1;
static thread_local int busy = 0; // inside the runtime
static pthread_key_t key;

struct Busy {
    Busy() {
        busy++;
    }
    ~Busy() {
        busy--;
    }
};
static uint64_t rnd() {
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1Dull >> 11;
}
static void error(const char* what, const char* detail = "") {
    if(dead) {
        for(;;) ::pause();
    }
    dead = true;
    on_error(what, detail);
    _exit(0);
}
// this TU is not subject to --wrap for the real syscall below: use the raw instruction
static long rawsys(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
static void fwait_raw(uint32_t* p) {
    while(__atomic_load_n(p, __ATOMIC_SEQ_CST) == 0)
        rawsys(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(p, 0, __ATOMIC_SEQ_CST);
}
static void fpost(uint32_t* p) {
    __atomic_store_n(p, 1, __ATOMIC_SEQ_CST);
    rawsys(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
// a decision among n options; option 0 is the default (continue)
static int decide(int n) {
    if(n <= 1) return 0;
    if(C.mode != 2) return (int)(rnd() % (uint64_t)n);
    int i = CH->n, k = 0;
    if(i >= (1 << 16)) {
        CH->overflow = 1;
        return 0;
    }
    if(i < CH->prefix_n) k = CH->prefix[i];
    if(k >= n) k = n - 1;
    CH->c[i] = {(uint8_t)n, (uint8_t)k};
    CH->n++;
    return k;
}
int choose(int n) {
    return decide(n);
}
static void hand(int n, bool wait) {
    int old = cur;
    if(n == old) return;
    cur = n;
    fpost(&T[n].go);
    if(wait) fwait_raw(&T[old].go);
}
static void io_changed() {
    for(int i = 0; i < NTHR; i++)
        if(T[i].st == IOWAIT) T[i].st = READY;
}
struct VTimer {
    uint64_t at, period;
};
static std::map<int, VTimer> timers; // fd -> expiry
static void fire_timers() {
    bool any = false;
    for(auto it = timers.begin(); it != timers.end();) {
        if(it->second.at <= clock_ns) {
            uint64_t one = 1;
            __real_write(it->first, &one, 8);
            any = true;
            if(it->second.period) {
                it->second.at += it->second.period;
                ++it;
            } else
                it = timers.erase(it);
        } else
            ++it;
    }
    for(int i = 0; i < NTHR; i++)
        if((T[i].st == BLOCKED || T[i].st == IOWAIT) && T[i].deadline && T[i].deadline <= clock_ns) {
            T[i].timed_out = true;
            T[i].deadline = 0;
            T[i].st = READY;
        }
    if(any) io_changed();
}
static bool advance_time() {
    uint64_t best = 0;
    for(auto& t : timers)
        if(!best || t.second.at < best) best = t.second.at;
    for(int i = 0; i < NTHR; i++)
        if((T[i].st == BLOCKED || T[i].st == IOWAIT) && T[i].deadline && (!best || T[i].deadline < best)) best = T[i].deadline;
    if(!best) return false;
    if(best > clock_ns) clock_ns = best;
    fire_timers();
    return true;
}
// picks the thread to run next. self_ok: the running thread may continue
static int pick(bool self_ok) {
    for(;;) {
        int opt[MAXT], n = 0;
        if(self_ok && T[cur].st == READY) opt[n++] = cur;
        for(int i = 0; i < NTHR; i++)
            if(i != cur && T[i].st == READY) opt[n++] = i;
        if(!self_ok && T[cur].st == READY) opt[n++] = cur;
        if(n == 0) {
            if(advance_time()) continue;
            for(int i = 0; i < NTHR; i++)
                if(T[i].st == DRAIN) {
                    T[i].st = READY;
                    return i;
                }
            dead = true;
            on_stuck();
            _exit(0);
        }
        bool forced = streak > 2000;
        if(n == 1) return opt[0];
        if(C.mode == 2) {
            if(self_ok && opt[0] == cur) {
                if(forced) {
                    streak = 0;
                    return opt[1 + (steps % (n - 1))];
                }
                if(preemptions >= C.bound) return cur;
            }
            int k = decide(n);
            if(k && self_ok && opt[0] == cur) preemptions++;
            return opt[k];
        }
        if(C.mode == 1) {
            if(forced) T[cur].prio = low_prio--;
            for(long c : change)
                if(c == steps) T[cur].prio = low_prio--;
            int b = opt[0];
            for(int i = 1; i < n; i++)
                if(T[opt[i]].prio > T[b].prio) b = opt[i];
            return b;
        }
        if(self_ok && opt[0] == cur && !forced && rnd() % switch_p) return cur;
        return opt[rnd() % (uint64_t)n];
    }
}
static void point(bool io = false) {
    if(!on || me < 0) return;
    (void)io;
    if(++steps > C.max_steps) error("livelock");
    if(!timers.empty() && C.mode != 2 && rnd() % 64 == 0) advance_time();
    int n = pick(true);
    if(n == cur)
        streak++;
    else {
        streak = 0;
        hand(n, true);
    }
}
static void block_now(State st) {
    T[me].st = st;
    int n = pick(false);
    streak = 0;
    if(n != me) hand(n, true);
}
static void wake(int t) {
    T[t].st = READY;
    T[t].woken = true;
    T[t].deadline = 0;
}
void yield() {
    Busy b;
    point();
}
int self() {
    return me;
}
bool is_done(int t) {
    return T[t].st == DONE;
}
int unreleased() {
    int n = 0;
    for(int i = 1; i < NTHR; i++) n += T[i].st == DONE && !T[i].joined && !T[i].detached;
    return n;
}
bool is_blocked(int t) {
    return T[t].st == BLOCKED || T[t].st == IOWAIT;
}
int n_threads() {
    return NTHR;
}
uint64_t now_ns() {
    return clock_ns;
}
int affinity(int t) {
    return T[t].core;
}
void sleep_until(uint64_t ns) {
    Busy b;
    if(ns <= clock_ns) return point();
    T[me].deadline = ns;
    T[me].timed_out = false;
    block_now(BLOCKED);
}
static void tick() {
    T[me].vc.c[me]++;
}
void drain() {
    Busy b;
    T[0].st = DRAIN;
    int n = pick(false);
    if(n != 0)
        hand(n, true);
    for(int i = 1; i < NTHR; i++)
        if(T[i].st == DONE) T[0].vc.join(T[i].end);
}
static void set_stack(Thr& t) {
    pthread_attr_t a;
    void* p;
    size_t n;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &p, &n);
    pthread_attr_destroy(&a);
    t.stack_lo = (uintptr_t)p;
    t.stack_hi = t.stack_lo + n;
}
static void finish_thread(void* p) {
    Busy b;
    long i = (long)p - 1;
    Thr& t = T[i];
    tick();
    t.end = t.vc;
    t.st = DONE;
    for(int k = 0; k < NTHR; k++)
        if(T[k].st == BLOCKED && T[k].addr == &t) wake(k);
    streak = 0;
    int n = pick(false);
    cur = n;
    me = -1;
    fpost(&T[n].go);
}
static void* trampoline(void* p) {
    long i = (long)p;
    busy++;
    fwait_raw(&T[i].go);
    me = (int)i;
    pthread_setspecific(key, (void*)(i + 1));
    set_stack(T[i]);
    busy--;
    T[i].ret = T[i].fn(T[i].arg);
    return T[i].ret;
}
static void set_prio(Thr& t) {
    t.prio = (long)(rnd() % 1000000) + 1000;
}
void start(const Config& cfg, Choices* ch) {
    C = cfg;
    CH = ch;
    ch->n = 0;
    ch->overflow = 0;
    rng = cfg.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for(int i = 0; i < 8; i++) rnd();
    static const uint32_t ps[] = {2, 3, 5, 10, 25};
    switch_p = ps[rnd() % 5];
    if(C.mode == 1) {
        int d = (int)(rnd() % 4);
        for(int i = 0; i < d; i++) change.push_back((long)(rnd() % (uint64_t)std::max(1l, C.est_steps)));
    }
    pthread_key_create(&key, finish_thread);
    me = 0;
    NTHR = 1;
    T[0].st = READY;
    T[0].id = pthread_self();
    set_prio(T[0]);
    set_stack(T[0]);
    T[0].vc.c[0] = 1;
    on = true;
}
//////////////////////////////////////////////////////////////////////////////// memory
static char* arena = nullptr;
static size_t arena_size = 512ull << 20, arena_at = 0;
static uint8_t* shade = nullptr; // per 16 bytes: 0 untouched, 1 live, 2 freed
static std::unordered_map<uintptr_t, size_t>* sizes;
static auto* spare = new std::unordered_map<size_t, std::vector<char*>>; // by size in units of 16, with Config::reuse
static long n_blocks = 0, n_bytes = 0;
static void arena_init() {
    if(arena) return;
    arena = (char*)mmap(nullptr, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shade = (uint8_t*)mmap(nullptr, arena_size / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sizes = new std::unordered_map<uintptr_t, size_t>;
}
static void* arena_alloc(size_t n, size_t align = 16) {
    arena_init();
    if(C.reuse && align <= 16) {
        auto& v = (*spare)[(n + 15) / 16];
        if(!v.empty()) {
            char* p = v.back();
            v.pop_back();
            memset(shade + (p - arena) / 16, 1, (n + 15) / 16);
            (*sizes)[(uintptr_t)p] = n;
            n_blocks++;
            n_bytes += (long)n;
            memset(p, 0xA5, n);
            return p;
        }
    }
    size_t at = (arena_at + align - 1) & ~(align - 1);
    size_t full = (n + 15) & ~size_t(15);
    if(at + full + 32 > arena_size || n > arena_size) return nullptr;
    memset(shade + at / 16, 1, full / 16);
    arena_at = at + full + 16;
    (*sizes)[(uintptr_t)(arena + at)] = n;
    n_blocks++;
    n_bytes += (long)n;
    memset(arena + at, 0xA5, n);
    return arena + at;
}
static bool in_arena(const void* p) {
    return arena && (const char*)p >= arena && (const char*)p < arena + arena_size;
}
static void arena_free(void* p) {
    auto it = sizes->find((uintptr_t)p);
    if(it == sizes->end()) error("bad-free");
    size_t i = (size_t)((char*)p - arena) / 16;
    if(it->second && shade[i] == 2) error("double-free");
    memset(shade + i, 2, (it->second + 15) / 16);
    memset(p, 0x5A, it->second);
    n_blocks--;
    n_bytes -= (long)it->second;
    if(C.reuse && it->second) (*spare)[(it->second + 15) / 16].push_back((char*)p);
    if(!it->second) sizes->erase(it);
}
long arena_blocks() {
    return n_blocks;
}
long arena_bytes() {
    return n_bytes;
}
bool arena_freed(const void* p) {
    return in_arena(p) && shade[(size_t)((const char*)p - arena) / 16] == 2;
}
static void check_mem(const void* p, size_t n, bool write) {
    if(!on || me < 0 || dead || !in_arena(p)) return;
    size_t a = (size_t)((const char*)p - arena) / 16, b = (size_t)((const char*)p + n - 1 - arena) / 16;
    for(size_t i = a; i <= b; i++)
        if(shade[i] != 1) {
            Busy x;
            error(shade[i] == 2 ? "use-after-free" : "out-of-bounds", write ? "write" : "read");
        }
}
//////////////////////////////////////////////////////////////////////////////// happens-before
struct Loc {
    int wt = -1;
    uint32_t wc = 0;
    std::vector<std::pair<int, uint32_t>> reads;
};
static std::unordered_map<uintptr_t, Loc>* locs = new std::unordered_map<uintptr_t, Loc>;
static bool ordered(int t, uint32_t c) {
    return t < 0 || t == me || T[me].vc.c[t] >= c;
}
void data_read(const void* p, size_t n) {
    if(!on || me < 0 || dead) return;
    Busy b;
    check_mem(p, n, false);
    for(uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a += 4) {
        Loc& l = (*locs)[a & ~3ul];
        if(!ordered(l.wt, l.wc)) error("race", "read not ordered after a write");
        for(auto& r : l.reads)
            if(r.first == me) {
                r.second = T[me].vc.c[me];
                goto next;
            }
        l.reads.push_back({me, T[me].vc.c[me]});
    next:;
    }
}
void data_write(const void* p, size_t n) {
    if(!on || me < 0 || dead) return;
    Busy b;
    check_mem(p, n, true);
    for(uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a += 4) {
        Loc& l = (*locs)[a & ~3ul];
        if(!ordered(l.wt, l.wc)) error("race", "write not ordered after a write");
        for(auto& r : l.reads)
            if(!ordered(r.first, r.second)) error("race", "write not ordered after a read");
        l.wt = me;
        l.wc = T[me].vc.c[me];
        l.reads.clear();
    }
}
void data_forget(const void* p, size_t n) {
    Busy b;
    for(uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a += 4) locs->erase(a & ~3ul);
}
struct ALoc {
    VC rel;
    int wt = -1;      // last atomic writer
    uint32_t wc = 0;
    std::vector<std::pair<int, uint32_t>> acc; // last atomic access by each thread
    int pw = -1;      // last plain write since the location was atomic
    uint32_t pwc = 0;
};
static std::unordered_map<uintptr_t, ALoc>* alocs = new std::unordered_map<uintptr_t, ALoc>;
static bool on_stack(uintptr_t a) {
    for(int i = 0; i < NTHR; i++)
        if(a >= T[i].stack_lo && a < T[i].stack_hi) return true;
    return false;
}
bool own_stack(const void* p) {
    return me >= 0 && (uintptr_t)p >= T[me].stack_lo && (uintptr_t)p < T[me].stack_hi;
}
static bool acq_order(int mo) {
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static bool rel_order(int mo) {
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static ALoc& aloc(const volatile void* p) {
    return (*alocs)[(uintptr_t)p];
}
static void note_atomic(ALoc& l, bool write) {
    uint32_t c = T[me].vc.c[me];
    if(write) {
        l.wt = me;
        l.wc = c;
    }
    for(auto& r : l.acc)
        if(r.first == me) {
            r.second = c;
            return;
        }
    l.acc.push_back({me, c});
}
static void a_load(const volatile void* p, int mo) {
    ALoc& l = aloc(p);
    if(acq_order(mo))
        T[me].vc.join(l.rel);
    else
        T[me].acq.join(l.rel);
    note_atomic(l, false);
}
static void a_store(const volatile void* p, int mo) {
    ALoc& l = aloc(p);
    note_atomic(l, true);
    if(rel_order(mo)) {
        l.rel = T[me].vc;
        tick();
    } else
        l.rel = T[me].rel;
}
static void a_rmw(const volatile void* p, int mo) {
    ALoc& l = aloc(p);
    if(acq_order(mo))
        T[me].vc.join(l.rel);
    else
        T[me].acq.join(l.rel);
    note_atomic(l, true);
    if(rel_order(mo)) {
        l.rel.join(T[me].vc);
        tick();
    } else
        l.rel.join(T[me].rel);
}
static void fence(int mo) {
    if(acq_order(mo)) T[me].vc.join(T[me].acq);
    if(rel_order(mo)) {
        T[me].rel = T[me].vc;
        tick();
    }
}
static void sync_out(const void* k) {
    a_rmw(k, __ATOMIC_SEQ_CST);
}
static void sync_in(const void* k) {
    a_load(k, __ATOMIC_ACQUIRE);
}
// plain access by instrumented code
static bool enabled() {
    return on && me >= 0 && !busy && !dead;
}
static void plain(const void* p, size_t n, bool write) {
    if(!on || me < 0 || dead) return;
    check_mem(p, n, write);
    if(busy) return;
    uintptr_t a = (uintptr_t)p;
    if(a >= T[me].stack_lo && a < T[me].stack_hi) return;
    {
        Busy b;
        if(!alocs->empty()) {
            auto it = alocs->find(a);
            if(it != alocs->end() && !on_stack(a)) {
                ALoc& l = it->second;
                bool race = write ? false : !ordered(l.wt, l.wc);
                if(write)
                    for(auto& r : l.acc)
                        if(!ordered(r.first, r.second)) race = true;
                if(race) error("race", "plain access to an atomic");
            }
        }
        if(C.plain && rnd() % 6 == 0) point();
    }
}
//////////////////////////////////////////////////////////////////////////////// pthread, futex
struct Mu {
    int owner = -1;
};
static std::unordered_map<uintptr_t, Mu>* mus = new std::unordered_map<uintptr_t, Mu>;
static std::unordered_map<uintptr_t, std::vector<int>>* conds = new std::unordered_map<uintptr_t, std::vector<int>>;
static std::vector<std::pair<const void*, int>> futq;
static void mu_lock(void* m, bool reacquire = false) {
    for(;;) {
        Mu& u = (*mus)[(uintptr_t)m];
        if(u.owner < 0) {
            u.owner = me;
            break;
        }
        (void)reacquire;
        T[me].addr = m;
        block_now(BLOCKED);
    }
    sync_in(m);
}
static void mu_unlock(void* m) {
    Mu& u = (*mus)[(uintptr_t)m];
    if(u.owner != me) error("bad-unlock", "unlock of a mutex that the thread does not hold");
    sync_out(m);
    u.owner = -1;
    for(int i = 0; i < NTHR; i++)
        if(T[i].st == BLOCKED && T[i].addr == m) wake(i);
}
static std::set<int>* fds = new std::set<int>;
int open_fds() {
    return (int)fds->size();
}
} // namespace rt
using namespace rt;
#define W(r, f) extern "C" r __wrap_##f

W(int, pthread_create)(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if(!enabled()) return __real_pthread_create(out, attr, fn, arg);
    Busy b;
    point();
    if(NTHR >= MAXT) error("too-many-threads");
    int i = NTHR++;
    Thr& t = T[i];
    t.fn = fn;
    t.arg = arg;
    set_prio(t);
    t.vc.join(T[me].vc);
    t.vc.c[i] = 1;
    tick();
    int r = __real_pthread_create(&t.id, attr, trampoline, (void*)(long)i);
    if(r) _exit(98);
    t.st = READY;
    *out = t.id;
    point();
    return 0;
}
static Thr* find_thread(pthread_t id) {
    for(int i = NTHR - 1; i >= 0; i--)
        if(T[i].id == id && T[i].st != NONE && !T[i].joined && !(T[i].detached && T[i].st == DONE)) return &T[i];
    return nullptr;
}
W(int, pthread_join)(pthread_t id, void** ret) {
    if(!enabled()) return __real_pthread_join(id, ret);
    if(on_join) on_join();
    Busy b;
    point();
    Thr* t = find_thread(id);
    if(!t || t->detached || t->joined) error("bad-join", "join of a thread that was joined or detached");
    while(t->st != DONE) {
        T[me].addr = t;
        block_now(BLOCKED);
    }
    t->joined = true;
    T[me].vc.join(t->end);
    return __real_pthread_join(id, ret);
}
W(int, pthread_detach)(pthread_t id) {
    if(!enabled()) return __real_pthread_detach(id);
    Busy b;
    point();
    Thr* t = find_thread(id);
    if(!t || t->detached || t->joined) error("bad-detach", "detach of a thread that was joined or detached");
    t->detached = true;
    int r = __real_pthread_detach(id);
    point();
    return r;
}
W(int, pthread_mutex_init)(pthread_mutex_t* m, const pthread_mutexattr_t*) {
    memset(m, 0, sizeof *m);
    if(on) {
        Busy b;
        (*mus)[(uintptr_t)m] = Mu{};
    }
    return 0;
}
W(int, pthread_mutex_destroy)(pthread_mutex_t* m) {
    if(!enabled()) return 0;
    Busy b;
    auto it = mus->find((uintptr_t)m);
    if(it != mus->end()) {
        if(it->second.owner >= 0) error("bad-destroy", "destruction of a held mutex");
        mus->erase(it);
    }
    return 0;
}
W(int, pthread_mutex_lock)(pthread_mutex_t* m) {
    if(!on || me < 0 || dead) return 0;
    Busy b;
    point();
    check_mem(m, sizeof *m, true);
    mu_lock(m);
    return 0;
}
W(int, pthread_mutex_trylock)(pthread_mutex_t* m) {
    if(!on || me < 0 || dead) return 0;
    Busy b;
    point();
    check_mem(m, sizeof *m, true);
    Mu& u = (*mus)[(uintptr_t)m];
    if(u.owner >= 0) return EBUSY;
    u.owner = me;
    sync_in(m);
    return 0;
}
W(int, pthread_mutex_unlock)(pthread_mutex_t* m) {
    if(!on || me < 0 || dead) return 0;
    Busy b;
    point();
    check_mem(m, sizeof *m, true);
    mu_unlock(m);
    point();
    return 0;
}
W(int, pthread_cond_init)(pthread_cond_t* c, const pthread_condattr_t*) {
    memset(c, 0, sizeof *c);
    return 0;
}
W(int, pthread_cond_destroy)(pthread_cond_t* c) {
    if(!enabled()) return 0;
    Busy b;
    auto& q = (*conds)[(uintptr_t)c];
    if(!q.empty()) error("bad-destroy", "destruction of a condition with waiters");
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    Busy b;
    point();
    check_mem(c, sizeof *c, true);
    if(C.faults && decide(8) == 1) {
        // spurious wakeup: release and reacquire
        mu_unlock(m);
        point();
        mu_lock(m);
        return 0;
    }
    (*conds)[(uintptr_t)c].push_back(me);
    mu_unlock(m);
    T[me].addr = c;
    T[me].woken = false;
    T[me].timed_out = false;
    T[me].deadline = deadline;
    block_now(BLOCKED);
    auto& q = (*conds)[(uintptr_t)c];
    q.erase(std::remove(q.begin(), q.end(), me), q.end());
    bool to = T[me].timed_out && !T[me].woken;
    mu_lock(m);
    return to ? ETIMEDOUT : 0;
}
W(int, pthread_cond_wait)(pthread_cond_t* c, pthread_mutex_t* m) {
    if(!on || me < 0 || dead) return 0;
    return cond_wait(c, m, 0);
}
static uint64_t ns_of(const struct timespec* t) {
    return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec;
}
W(int, pthread_cond_timedwait)(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if(!on || me < 0 || dead) return 0;
    return cond_wait(c, m, std::max<uint64_t>(1, ns_of(t)));
}
static void cond_wake(pthread_cond_t* c, bool all) {
    Busy b;
    point();
    check_mem(c, sizeof *c, true);
    auto& q = (*conds)[(uintptr_t)c];
    while(!q.empty()) {
        int k = decide((int)q.size());
        int t = q[(size_t)k];
        q.erase(q.begin() + k);
        if(T[t].st == BLOCKED) wake(t);
        if(!all) break;
    }
    point();
}
W(int, pthread_cond_signal)(pthread_cond_t* c) {
    if(!on || me < 0 || dead) return 0;
    cond_wake(c, false);
    return 0;
}
W(int, pthread_cond_broadcast)(pthread_cond_t* c) {
    if(!on || me < 0 || dead) return 0;
    cond_wake(c, true);
    return 0;
}
W(int, pthread_setaffinity_np)(pthread_t, size_t, const cpu_set_t* s) {
    if(me >= 0)
        for(int i = 0; i < 256; i++)
            if(CPU_ISSET(i, s)) {
                T[me].core = i;
                if(i >= C.cores) return EINVAL;
            }
    return 0;
}
W(long, sysconf)(int n) {
    if(on && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return C.cores;
    return __real_sysconf(n);
}
W(long, syscall)(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for(int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if(!enabled() || n != SYS_futex) {
        long r = rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
        if(r < 0 && r > -4096) {
            errno = (int)-r;
            return -1;
        }
        return r;
    }
    const void* p = (const void*)a[0];
    int op = (int)a[1] & FUTEX_CMD_MASK;
    Busy b;
    point();
    if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        check_mem(p, 4, false);
        if(C.faults) {
            int k = decide(10);
            if(k == 1) {
                errno = EINTR;
                return -1;
            }
            if(k == 2) return 0; // spurious wakeup
        }
        if(*(const volatile uint32_t*)p != (uint32_t)a[2]) {
            errno = EAGAIN;
            return -1;
        }
        const struct timespec* ts = (const struct timespec*)a[3];
        T[me].deadline = 0;
        if(ts) T[me].deadline = (op == FUTEX_WAIT ? clock_ns : 0) + std::max<uint64_t>(1, ns_of(ts));
        futq.push_back({p, me});
        T[me].addr = p;
        T[me].woken = false;
        T[me].timed_out = false;
        block_now(BLOCKED);
        for(size_t i = 0; i < futq.size();)
            if(futq[i].second == me)
                futq.erase(futq.begin() + (long)i);
            else
                i++;
        if(T[me].timed_out && !T[me].woken) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        unsigned max = (unsigned)a[2];
        long woke = 0;
        std::vector<int> w;
        for(auto& q : futq)
            if(q.first == p && !T[q.second].woken && T[q.second].st == BLOCKED) w.push_back(q.second);
        while(!w.empty() && (unsigned)woke < max) {
            int k = max < w.size() ? decide((int)w.size()) : 0;
            wake(w[(size_t)k]);
            w.erase(w.begin() + k);
            woke++;
        }
        point();
        return woke;
    }
    error("futex-op");
    return -1;
}
//////////////////////////////////////////////////////////////////////////////// memory functions
W(void*, malloc)(size_t n) {
    if(!on || me < 0 || dead) return __real_malloc(n);
    Busy b;
    return arena_alloc(n);
}
W(void, free)(void* p) {
    if(!p) return;
    if(!in_arena(p)) return __real_free(p);
    if(dead) return;
    Busy b;
    arena_free(p);
}
W(void*, calloc)(size_t n, size_t m) {
    void* p = __wrap_malloc(n * m);
    if(p) memset(p, 0, n * m);
    return p;
}
W(void*, realloc)(void* p, size_t n) {
    void* q = __wrap_malloc(n);
    if(p && q) {
        size_t o = 0;
        if(in_arena(p)) o = (*sizes)[(uintptr_t)p];
        memcpy(q, p, o < n ? o : n);
        __wrap_free(p);
    }
    return q;
}
W(void*, aligned_alloc)(size_t al, size_t n) {
    Busy b;
    return arena_alloc(n, al);
}
//////////////////////////////////////////////////////////////////////////////// descriptors, time
static std::map<int, VC>* fdvc = new std::map<int, VC>;
static void fd_in(int fd) {
    auto it = fdvc->find(fd);
    if(it != fdvc->end()) T[me].vc.join(it->second);
}
static void track(int fd) {
    if(fd >= 0) {
        if(!fds->insert(fd).second) {}
    }
}
W(int, eventfd)(unsigned v, int fl) {
    if(!enabled()) return __real_eventfd(v, fl);
    Busy b;
    int fd = __real_eventfd(v, fl);
    track(fd);
    fdvc->erase(fd);
    return fd;
}
static std::map<int, std::vector<int>>* epsets = new std::map<int, std::vector<int>>;
W(int, epoll_create1)(int fl) {
    if(!enabled()) return __real_epoll_create1(fl);
    Busy b;
    int fd = __real_epoll_create1(fl);
    track(fd);
    (*epsets)[fd].clear();
    return fd;
}
W(int, epoll_ctl)(int ep, int op, int fd, struct epoll_event* ev) {
    if(!enabled()) return __real_epoll_ctl(ep, op, fd, ev);
    Busy b;
    point();
    if(op == EPOLL_CTL_ADD) (*epsets)[ep].push_back(fd);
    if(op == EPOLL_CTL_DEL) {
        auto& v = (*epsets)[ep];
        v.erase(std::remove(v.begin(), v.end(), fd), v.end());
    }
    return __real_epoll_ctl(ep, op, fd, ev);
}
W(int, epoll_wait)(int ep, struct epoll_event* out, int max, int timeout) {
    if(!enabled()) return __real_epoll_wait(ep, out, max, timeout);
    Busy b;
    point();
    if(max <= 0) {
        errno = EINVAL;
        return -1;
    }
    uint64_t deadline = timeout > 0 ? clock_ns + (uint64_t)timeout * 1000000ull : 0;
    if(C.faults && timeout != 0 && decide(8) == 1) {
        errno = EINTR;
        return -1;
    }
    for(;;) {
        struct epoll_event evs[64];
        int r = __real_epoll_wait(ep, evs, 64, 0);
        if(r != 0) {
            if(r < 0) return r;
            for(int fd : (*epsets)[ep]) {
                struct pollfd p = {fd, POLLIN, 0};
                if(__real_poll(&p, 1, 0) > 0) fd_in(fd);
            }
            int n = 0;
            while(n < max && n < r) {
                int k = n + decide(r - n);
                std::swap(evs[n], evs[k]);
                out[n] = evs[n];
                n++;
            }
            return n;
        }
        if(timeout == 0) return 0;
        if(deadline && clock_ns >= deadline) return 0;
        T[me].deadline = deadline;
        T[me].addr = nullptr;
        block_now(IOWAIT);
        T[me].deadline = 0;
        if(C.faults && decide(8) == 1) {
            errno = EINTR;
            return -1;
        }
    }
}
W(int, poll)(struct pollfd* p, nfds_t n, int timeout) {
    if(!enabled()) return __real_poll(p, n, timeout);
    Busy b;
    point();
    uint64_t deadline = timeout > 0 ? clock_ns + (uint64_t)timeout * 1000000ull : 0;
    if(C.faults && decide(8) == 1) {
        errno = EINTR;
        return -1;
    }
    for(;;) {
        int r = __real_poll(p, n, 0);
        if(r != 0) {
            for(nfds_t i = 0; i < n; i++)
                if(p[i].revents) fd_in(p[i].fd);
            return r;
        }
        if(timeout == 0 || (deadline && clock_ns >= deadline)) return 0;
        T[me].deadline = deadline;
        T[me].addr = nullptr;
        block_now(IOWAIT);
        T[me].deadline = 0;
    }
}
W(ssize_t, write)(int fd, const void* p, size_t n) {
    if(!enabled()) return __real_write(fd, p, n);
    Busy b;
    point();
    if(fds->count(fd)) {
        (*fdvc)[fd].join(T[me].vc);
        tick();
    }
    ssize_t r = __real_write(fd, p, n);
    io_changed();
    point();
    return r;
}
W(ssize_t, read)(int fd, void* p, size_t n) {
    if(!enabled()) return __real_read(fd, p, n);
    Busy b;
    point();
    for(;;) {
        if(fds->count(fd)) {
            struct pollfd q = {fd, POLLIN, 0};
            int fl = fcntl(fd, F_GETFL);
            if(!(fl & O_NONBLOCK) && __real_poll(&q, 1, 0) == 0) {
                T[me].addr = nullptr;
                block_now(IOWAIT);
                continue;
            }
        }
        break;
    }
    ssize_t r = __real_read(fd, p, n);
    if(r >= 0) fd_in(fd);
    io_changed();
    return r;
}
W(int, close)(int fd) {
    if(!enabled()) return __real_close(fd);
    Busy b;
    point();
    int r = __real_close(fd);
    if(r != 0 || !fds->erase(fd)) {
        if(r != 0) error("bad-close", "close of a descriptor that is not open");
    }
    timers.erase(fd);
    epsets->erase(fd);
    io_changed();
    return r;
}
W(int, timerfd_create)(int, int) {
    Busy b;
    int fd = __real_eventfd(0, EFD_CLOEXEC);
    track(fd);
    fdvc->erase(fd);
    return fd;
}
W(int, timerfd_settime)(int fd, int flags, const struct itimerspec* n, struct itimerspec* old) {
    Busy b;
    point();
    if(!fds->count(fd)) {
        errno = EBADF;
        return -1;
    }
    if(n->it_value.tv_nsec > 999999999 || n->it_value.tv_nsec < 0 || n->it_value.tv_sec < 0) {
        errno = EINVAL;
        return -1;
    }
    if(old) memset(old, 0, sizeof *old);
    uint64_t v = ns_of(&n->it_value);
    timers.erase(fd);
    if(v) timers[fd] = {(flags & TFD_TIMER_ABSTIME) ? v : clock_ns + v, ns_of(&n->it_interval)};
    return 0;
}
W(int, usleep)(unsigned us) {
    if(!enabled()) return 0;
    sleep_until(clock_ns + (uint64_t)us * 1000);
    return 0;
}
W(int, nanosleep)(const struct timespec* t, struct timespec*) {
    if(!enabled()) return 0;
    sleep_until(clock_ns + ns_of(t));
    return 0;
}
W(int, sched_yield)() {
    if(enabled()) rt::yield();
    return 0;
}
W(int, clock_gettime)(clockid_t id, struct timespec* t) {
    if(!on || me < 0) return __real_clock_gettime(id, t);
    if(!C.still) clock_ns += 50 + rnd() % 200;
    t->tv_sec = (time_t)(clock_ns / 1000000000ull);
    t->tv_nsec = (long)(clock_ns % 1000000000ull);
    return 0;
}
//////////////////////////////////////////////////////////////////////////////// instrumentation
extern "C" {
void __tsan_init() {
}
void __tsan_func_entry(void*) {
}
void __tsan_func_exit() {
}
#define RW(n)                                                                                      \
    void __tsan_read##n(void* p) { plain(p, n, false); }                                           \
    void __tsan_write##n(void* p) { plain(p, n, true); }                                           \
    void __tsan_unaligned_read##n(void* p) { plain(p, n, false); }                                 \
    void __tsan_unaligned_write##n(void* p) { plain(p, n, true); }                                 \
    void __tsan_read_write##n(void* p) { plain(p, n, true); }                                      \
    void __tsan_unaligned_read_write##n(void* p) { plain(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) {
    plain(p, 8, true);
}
void __tsan_vptr_read(void** p) {
    plain(p, 8, false);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if(n) {
        plain(s, n, false);
        plain(d, n, true);
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    if(n) {
        plain(s, n, false);
        plain(d, n, true);
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    if(n) plain(d, n, true);
    return memset(d, c, n);
}
void __tsan_atomic_thread_fence(int mo) {
    if(!enabled()) return;
    Busy b;
    point();
    rt::fence(mo);
}
void __tsan_atomic_signal_fence(int) {
}
}
struct At {
    bool act;
    At(const volatile void* p, size_t n, bool w) {
        act = enabled();
        busy++;
        if(act) point();
        check_mem((const void*)p, n, w);
    }
    ~At() {
        busy--;
    }
};
#define ATOMIC(bits, T)                                                                             \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                          \
        At x(a, sizeof(T), false);                                                                  \
        if(x.act) a_load(a, mo);                                                                    \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                \
    }                                                                                               \
    extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                       \
        At x(a, sizeof(T), true);                                                                   \
        if(x.act) a_store(a, mo);                                                                   \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                   \
    }                                                                                               \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                       \
        At x(a, sizeof(T), true);                                                                   \
        if(x.act) a_rmw(a, mo);                                                                     \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                               \
    ARITH(bits, T, add) ARITH(bits, T, sub) ARITH(bits, T, and) ARITH(bits, T, or)                  \
    ARITH(bits, T, xor) ARITH(bits, T, nand)                                                        \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo,  \
                                                                 int fmo) {                         \
        At x(a, sizeof(T), true);                                                                   \
        bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);  \
        if(x.act) {                                                                                 \
            if(ok)                                                                                  \
                a_rmw(a, mo);                                                                       \
            else                                                                                    \
                a_load(a, fmo);                                                                     \
        }                                                                                           \
        return ok;                                                                                  \
    }                                                                                               \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo,    \
                                                               int fmo) {                           \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                     \
    }                                                                                               \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo,        \
                                                            int fmo) {                              \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                           \
        return c;                                                                                   \
    }
#define ARITH(bits, T, o)                                                                           \
    extern "C" T __tsan_atomic##bits##_fetch_##o(volatile T* a, T v, int mo) {                      \
        At x(a, sizeof(T), true);                                                                   \
        if(x.act) a_rmw(a, mo);                                                                     \
        return __atomic_fetch_##o(a, v, __ATOMIC_SEQ_CST);                                          \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
