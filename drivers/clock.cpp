// Conformance driver for time, sleeping, thread identity and placement (C27). Real threads run
// the commands of the script; real time is taken from the operating system around every call.
#include "common.h"
#include <condition_variable>
#include <mutex>
#include <string>
#include <thread>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>

#include <rpp/profile.h>
#include <rpp/thread.h>
using namespace rpp;
using namespace drv;

namespace {

constexpr int NT = 4;

long real_us() {
    static long base = 0;
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    long us = t.tv_sec * 1000000L + t.tv_nsec / 1000;
    if(!base) base = us;
    return us - base;
}

// requests longer than any history, some of which a narrower unit or type would cut short
const u64 LONG[] = {4294968, 4294967296ull / 1000 * 1000 + 296, 8589935, 4294967296ull, 4294967297ull, 1ull << 40,
                    18446744073709551ull, 18446744073709552ull, 1ull << 63, ~0ull, 2147483648ull, 9223372036854776ull};

std::mutex log_mut;
std::map<u64, long> ids;
long intern(u64 id) {
    auto it = ids.find(id);
    if(it == ids.end()) it = ids.insert({id, (long)ids.size() + 1}).first;
    return it->second;
}

struct Worker {
    std::mutex m;
    std::condition_variable cv;
    Op op;
    int state = 0; // 0 nothing to do, 1 command, 2 asleep, 3 done
    bool quit = false;
    long id = 0;
    pid_t tid = 0;
    pthread_t handle;
    Thread::Thread<> thread;
    bool on = false;
};
Worker* w[NT + 1];
u64 c0;
bool c_on = false;

std::string masks() {
    std::string r = "[";
    for(int i = 0; i <= NT; i++) {
        if(i) r += ",";
        std::vector<long> v;
        if(w[i] && w[i]->on) {
            cpu_set_t s;
            CPU_ZERO(&s);
            sched_getaffinity(w[i]->tid, sizeof s, &s);
            for(int k = 0; k < CPU_SETSIZE; k++)
                if(CPU_ISSET(k, &s)) v.push_back(k);
        }
        r += Ev::arr(v);
    }
    return r + "]";
}
std::vector<long> prios() {
    std::vector<long> v;
    for(int i = 0; i <= NT; i++) {
        long p = 0;
        if(w[i] && w[i]->on) {
            sched_param sp = {};
            int pol = sched_getscheduler(w[i]->tid);
            sched_getparam(w[i]->tid, &sp);
            p = pol * 1000 + sp.sched_priority;
        }
        v.push_back(p);
    }
    return v;
}
void log_op(const Op& op, void (*more)(Ev&) = nullptr) {
    Ev h;
    h.head(op, "ok");
    if(more) more(h);
    emit(h);
}

// executed by the thread the operation is about
void perform(Op op) {
    const std::string& n = op.name;
    op.set("id", 0);
    if(n == "sleep" || n == "long") {
        u64 ms = n == "sleep" ? (u64)op.get("ms") : LONG[op.get("i")];
        Op s = op;
        s.name = "sleep";
        if(n == "long") s.set("ms", -1);
        {
            std::lock_guard<std::mutex> g(log_mut);
            s.set("id", intern(Thread::this_id()));
            s.set("at", real_us());
            log_op(s);
        }
        Worker& me = *w[op.get("t")];
        {
            std::lock_guard<std::mutex> g(me.m);
            me.state = 2;
            me.cv.notify_all();
        }
        Thread::sleep(ms);
        std::lock_guard<std::mutex> g(log_mut);
        s.name = "woke";
        s.set("id", intern(Thread::this_id()));
        s.set("at", real_us());
        log_op(s);
        return;
    }
    std::lock_guard<std::mutex> g(log_mut);
    op.set("id", intern(Thread::this_id()));
    if(n == "read") {
        long lo = real_us();
        u64 c = Thread::perf_counter();
        long hi = real_us();
        if(!c_on) c0 = c;
        c_on = true;
        u64 f = Thread::perf_frequency();
        bool back = c < c0;
        u64 d = back ? c0 - c : c - c0;
        op.set("lo", lo);
        op.set("hi", hi);
        Ev h;
        h.head(op, "ok");
        h.nums("v", std::vector<long>{back ? -1 : (long)(d / f), (long)((d % f) * 1000000000.0 / f)});
        emit(h);
    } else if(n == "pin") {
        cpu_set_t s;
        std::vector<long> ok;
        static cpu_set_t all;
        static bool have = false;
        if(!have) {
            // the cores of the whole process at its start
            CPU_ZERO(&all);
            sched_getaffinity(getppid(), sizeof all, &all);
            have = true;
        }
        for(long k = 0; k < (long)Thread::hardware_threads(); k++)
            if(CPU_ISSET(k, &all)) ok.push_back(k);
        if(ok.empty()) return;
        long core = ok[(size_t)op.get("i") % ok.size()];
        op.set("core", core);
        Thread::set_affinity((u64)core);
        log_op(op, [](Ev& e) { e.raw("aff", masks()); });
    } else if(n == "prio") {
        constexpr Thread::Priority p[] = {Thread::Priority::low, Thread::Priority::normal, Thread::Priority::high,
                                          Thread::Priority::critical};
        Thread::set_priority(p[op.get("p")]);
        log_op(op, [](Ev& e) {
            e.raw("aff", masks());
            e.nums("pri", prios());
        });
    } else if(n == "pause") {
        for(int i = 0; i < 100; i++) Thread::pause();
        log_op(op);
    }
}

void body(int t) {
    Worker& me = *w[t];
    std::unique_lock<std::mutex> g(me.m);
    me.id = (long)Thread::this_id();
    me.tid = (pid_t)syscall(SYS_gettid);
    me.handle = pthread_self();
    me.state = 3;
    me.cv.notify_all();
    for(;;) {
        me.cv.wait(g, [&] { return me.quit || me.state == 1; });
        if(me.quit) return;
        Op op = me.op;
        g.unlock();
        perform(op);
        g.lock();
        me.state = 3;
        me.cv.notify_all();
    }
}
// hands a command to a thread; returns when it is done, or asleep
void command(const Op& op) {
    long t = op.get("t");
    if(t == 0) return perform(op);
    Worker& x = *w[t];
    std::unique_lock<std::mutex> g(x.m);
    x.cv.wait(g, [&] { return x.state == 3; });
    x.op = op;
    x.state = 1;
    x.cv.notify_all();
    x.cv.wait(g, [&] { return x.state != 1; });
}
void await(Worker& x) {
    std::unique_lock<std::mutex> g(x.m);
    x.cv.wait(g, [&] { return x.state == 3; });
}

void go(const Script& sc) {
    struct sigaction sa = {};
    sa.sa_handler = [](int) {};
    sigaction(SIGUSR1, &sa, nullptr);
    real_us();
    w[0] = new Worker;
    w[0]->on = true;
    w[0]->tid = (pid_t)syscall(SYS_gettid);
    for(size_t i = 0; i < sc.size(); i++) {
        Op op = sc[i];
        begin_op((long)i);
        const std::string& n = op.name;
        long t = op.get("t");
        if(n == "start") {
            w[t] = new Worker;
            Worker& x = *w[t];
            Thread::Thread<> a{[t] { body((int)t); }};
            x.thread = rpp::move(a);
            await(x);
            x.on = true;
            std::lock_guard<std::mutex> g(log_mut);
            op.set("id", intern((u64)x.id));
            op.set("oid", intern(x.thread.id()));
            log_op(op, [](Ev& e) {
                e.raw("aff", masks());
                e.nums("pri", prios());
            });
        } else if(n == "exit") {
            Worker& x = *w[t];
            await(x);
            {
                std::lock_guard<std::mutex> g(x.m);
                x.quit = true;
                x.cv.notify_all();
            }
            x.thread.join();
            x.on = false;
            std::lock_guard<std::mutex> g(log_mut);
            log_op(op, [](Ev& e) { e.raw("aff", masks()); });
        } else if(n == "join") {
            await(*w[t]);
            std::lock_guard<std::mutex> g(log_mut);
            log_op(op);
        } else if(n == "signal") {
            ::usleep(2000);
            pthread_kill(w[t]->handle, SIGUSR1);
            std::lock_guard<std::mutex> g(log_mut);
            log_op(op);
        } else if(n == "badpin") {
            Thread::set_affinity(op.get("n") ? ~0ull : Thread::hardware_threads());
            log_op(op);
        } else if(n == "reset" || n == "end") {
            if(n == "end") {
                for(int k = 1; k <= NT; k++)
                    if(w[k] && w[k]->on) {
                        std::unique_lock<std::mutex> g(w[k]->m);
                        if(w[k]->op.name != "long" || w[k]->state == 3)
                            w[k]->cv.wait(g, [&] { return w[k]->state == 3; });
                    }
                ::usleep(sc[0].get("settle", 5) * 1000);
            }
            std::lock_guard<std::mutex> g(log_mut);
            op.set("id", intern(Thread::this_id()));
            log_op(op, [](Ev& e) {
                e.raw("aff", masks());
                e.nums("pri", prios());
            });
            // threads in a long sleep end with the process, and log nothing after the end
            if(n == "end") {
                shared->done = 1;
                _exit(0);
            }
        } else if(n == "read" || n == "pin" || n == "prio" || n == "pause" || n == "sleep" || n == "long") {
            command(op);
        } else {
            std::lock_guard<std::mutex> g(log_mut);
            if(n == "conv") {
                u64 f = Thread::perf_frequency();
                u64 d = (u64)((unsigned __int128)op.get("n") * f / 8);
                op.set("s8", (long)(Profile::s(d) * 8.0f));
                op.set("ms", (long)Profile::ms(d));
            } else if(n == "wall") {
                long a = (long)time(nullptr);
                u64 v = Log::sys_time();
                long b = (long)time(nullptr);
                op.set("lo", 0);
                op.set("v", (long)v - a);
                op.set("hi", b - a);
            } else if(n == "text") {
                long off = op.get("off");
                char tz[32];
                // POSIX counts west of Greenwich
                snprintf(tz, sizeof tz, "XYZ%c%02ld:%02ld", off < 0 ? '+' : '-', labs(off) / 60, labs(off) % 60);
                setenv("TZ", tz, 1);
                tzset();
                // read only after another thread has asked for a text of its own
                String_View s = Log::sys_time_string((u64)(op.get("days") * 86400 + op.get("secs")));
                std::vector<long> v, u;
                std::thread other{[&] {
                    String_View s = Log::sys_time_string((u64)(op.get("days") * 86400 + op.get("more")));
                    for(u64 k = 0; k < s.length(); k++) u.push_back(s[k]);
                }};
                other.join();
                for(u64 k = 0; k < s.length(); k++) v.push_back(s[k]);
                Ev h;
                h.head(op, "ok");
                h.nums("txt", v);
                h.nums("txt2", u);
                emit(h);
                continue;
            } else if(n == "errs") {
                // what the last error of a thread is called, also when another thread fails differently
                auto name = [](String_View v) {
                    static std::map<std::string, long> names;
                    auto it = names.insert({std::string((const char*)v.data(), v.length()), (long)names.size() + 1});
                    return it.first->second;
                };
                errno = (int)op.get("a");
                String_View s = Log::sys_error();
                std::thread other{[&] {
                    errno = (int)op.get("b");
                    String_View s = Log::sys_error();
                    op.set("tb", name(s));
                }};
                other.join();
                op.set("ta", name(s));
            } else if(n == "hw") {
                op.set("v", (long)Thread::hardware_threads());
                op.set("most", sysconf(_SC_NPROCESSORS_CONF));
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            log_op(op);
        }
    }
}

} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) { go(sc); }, 60);
}
