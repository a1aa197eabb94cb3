// Conformance driver for file access (C20). System calls of the library are intercepted (--wrap) to
// inject failures, interruptions and partial transfers; everything happens in a scratch directory of
// an unprivileged user.
#include "common.h"
#include <atomic>
#include <grp.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <time.h>
#include <rpp/asyncio.h>
#include <rpp/files.h>
#include <rpp/pool.h>
using namespace rpp;
using namespace drv;

namespace {
u8 stream(long s, u64 i) {
    if(i == 0) return (u8)s; // one byte tells them apart
    u64 x = (i + 1) * 0x9E3779B97F4A7C15ull * (u64)(s + 3);
    x ^= x >> 29;
    return (u8)(x * 0xBF58476D1CE4E5B9ull >> 56);
}
struct Plan {
    std::atomic<bool> armed{false};
    long call = 0, f = 0, k = 0, g = 0, h = 0;
    long flip = 0;
    std::string inj;
    bool target[1024] = {};
} plan;
void injected(const char* fn, const char* what) {
    if(!plan.inj.empty()) plan.inj += ",";
    plan.inj += std::string("[\"") + fn + "\",\"" + what + "\"]";
}
// the kind of fault for this call
long fault() {
    plan.call++;
    if(plan.f && plan.call == plan.f && (plan.k < 8 || plan.k > 10)) return plan.k;
    if(plan.g && plan.call == plan.g) return plan.h;
    return plan.k >= 8 && plan.k <= 10 ? plan.k : 0;
}
bool mine(int fd) {
    return plan.armed && fd >= 0 && fd < 1024 && plan.target[fd];
}
} // namespace
extern "C" {
#define REAL(R, F, ...) R __real_##F(__VA_ARGS__)
REAL(int, open, const char*, int, ...);
REAL(int, open64, const char*, int, ...);
REAL(int, openat, int, const char*, int, ...);
REAL(ssize_t, read, int, void*, size_t);
REAL(ssize_t, pread, int, void*, size_t, off_t);
REAL(ssize_t, write, int, const void*, size_t);
REAL(ssize_t, pwrite, int, const void*, size_t, off_t);
REAL(off_t, lseek, int, off_t, int);
REAL(int, close, int);
REAL(int, stat, const char*, struct stat*);
REAL(int, fstat, int, struct stat*);
REAL(int, lstat, const char*, struct stat*);

static int opened(int fd) {
    if(plan.armed && fd >= 0 && fd < 1024) plan.target[fd] = true;
    return fd;
}
static bool open_fault() {
    if(!plan.armed) return false;
    long k = fault();
    if(!k || k >= 8) return false;
    injected("open", "fail");
    errno = k == 1 || k == 6 ? EINTR : k == 5 ? EACCES : EIO;
    return true;
}
#define MODE(fl, last)                                                                                                 \
    mode_t m = 0;                                                                                                      \
    if((fl) & O_CREAT) {                                                                                               \
        va_list ap;                                                                                                    \
        va_start(ap, last);                                                                                            \
        m = va_arg(ap, mode_t);                                                                                        \
        va_end(ap);                                                                                                    \
    }
int __wrap_open(const char* p, int fl, ...) {
    MODE(fl, fl);
    return open_fault() ? -1 : opened(__real_open(p, fl, m));
}
int __wrap_open64(const char* p, int fl, ...) {
    MODE(fl, fl);
    return open_fault() ? -1 : opened(__real_open(p, fl, m));
}
int __wrap_openat(int d, const char* p, int fl, ...) {
    MODE(fl, fl);
    return open_fault() ? -1 : opened(__real_openat(d, p, fl, m));
}
// decides about a transfer of n bytes: -1 with errno, or the number of bytes to transfer
static ssize_t transfer(int fd, const char* fn, size_t n) {
    if(!mine(fd)) return (ssize_t)n;
    long k = fault();
    if(k == 1 || k == 6 || (k == 9 && plan.flip++ % 2)) {
        injected(fn, "intr");
        errno = EINTR;
        return -1;
    }
    if(k == 3 || k == 5) {
        injected(fn, "fail");
        errno = k == 3 ? EIO : fn[0] == 'w' ? ENOSPC : EISDIR;
        return -1;
    }
    if((k == 11 || k == 12) && fn[0] == 'r') {
        // somebody else changes the file meanwhile: half of it goes, or more of the same is added
        struct stat st;
        char name[32];
        snprintf(name, sizeof name, "/proc/self/fd/%d", fd);
        if(__real_fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && (st.st_mode & 0200)) {
            long size = (long)st.st_size, s = 0;
            u8 one = 0;
            if(size > 0 && __real_pread(fd, &one, 1, 0) == 1)
                for(long i = 1; i <= 4 && !s; i++)
                    if(stream(i, 0) == one) s = i;
            if(s && k == 11) {
                injected(fn, "shrink");
                if(truncate(name, size / 2)) _exit(97);
            } else if(s) {
                injected(fn, "grow");
                int w = __real_open(name, O_WRONLY);
                u8 more[5];
                for(long i = 0; i < 5; i++) more[i] = stream(s, (u64)(size + i));
                if(__real_pwrite(w, more, 5, size) != 5) _exit(98);
                __real_close(w);
            }
        }
        return (ssize_t)n;
    }
    size_t m = n;
    if(k == 2 || k == 7) m = 1;
    if(k == 4) m = n / 2;
    if(k == 8) m = 4096;
    if(k == 9) m = 10000;
    if(k == 10) m = n < 200 ? 1 : 7777;
    if(m >= n || m == 0) return (ssize_t)n;
    injected(fn, "short");
    return (ssize_t)m;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
    ssize_t m = transfer(fd, "read", n);
    return m < 0 ? m : __real_read(fd, b, (size_t)m);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
    ssize_t m = transfer(fd, "read", n);
    return m < 0 ? m : __real_pread(fd, b, (size_t)m, o);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    ssize_t m = transfer(fd, "write", n);
    return m < 0 ? m : __real_write(fd, b, (size_t)m);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) {
    ssize_t m = transfer(fd, "write", n);
    return m < 0 ? m : __real_pwrite(fd, b, (size_t)m, o);
}
off_t __wrap_lseek(int fd, off_t o, int w) {
    if(mine(fd)) {
        long k = fault();
        if(k && k < 8) {
            injected("lseek", "fail");
            errno = EIO;
            return -1;
        }
    }
    return __real_lseek(fd, o, w);
}
int __wrap_close(int fd) {
    if(mine(fd)) {
        plan.target[fd] = false;
        long k = fault();
        if(k && k < 8) {
            bool lost = k == 3 || k == 5;
            injected("close", lost ? "fail" : "intr");
            struct stat st;
            // what was not stored yet is lost
            if(lost && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY && __real_fstat(fd, &st) == 0)
                if(ftruncate(fd, st.st_size / 2)) {}
            __real_close(fd);
            errno = lost ? k == 3 ? EIO : EDQUOT : EINTR;
            return -1;
        }
    }
    return __real_close(fd);
}
static bool stat_fault() {
    if(!plan.armed) return false;
    long k = fault();
    if(!k || k >= 8) return false;
    injected("stat", "fail");
    errno = EIO;
    return true;
}
int __wrap_stat(const char* p, struct stat* s) {
    return stat_fault() ? -1 : __real_stat(p, s);
}
int __wrap_lstat(const char* p, struct stat* s) {
    return stat_fault() ? -1 : __real_lstat(p, s);
}
int __wrap_fstat(int fd, struct stat* s) {
    return mine(fd) && stat_fault() ? -1 : __real_fstat(fd, s);
}
}

namespace {
const char* paths[11] = {nullptr, "a", "b", "sub/c", "link", "nodir/x", "sub", "", "/proc", "./sub/../b", "link2"};
// which stream and how many of its bytes
std::string identify(const u8* p, u64 n) {
    if(!n) return "[0,0]";
    for(long s = 1; s <= 4; s++) {
        u64 i = 0;
        while(i < n && p[i] == stream(s, i)) i++;
        if(i == n) return "[" + std::to_string(s) + "," + std::to_string(n) + "]";
    }
    return "[-1," + std::to_string(n) + "]";
}
int fds() {
    int n = 0;
    for(int i = 0; i < 512; i++) n += fcntl(i, F_GETFD) != -1;
    return n;
}
// descriptors the last call opened and left open
int left_open() {
    int n = 0;
    for(int i = 0; i < 1024; i++) n += plan.target[i] && fcntl(i, F_GETFD) != -1;
    memset(plan.target, 0, sizeof plan.target);
    return n;
}
int fds_expect(int want) {
    int n = fds();
    for(int i = 0; i < 400 && n != want; i++) {
        usleep(1000);
        n = fds();
    }
    return n;
}
std::string pair_of(long a, long b) {
    return "[" + std::to_string(a) + "," + std::to_string(b) + "]";
}
struct Run {
    Async::Pool<>* pool = nullptr;
    Files::Write_Watcher* watch[3] = {};
    std::string wpath[3];
    bool sub = true;
    int base = 0;
    // an exactly sized copy of a path
    struct Path {
        u8* p;
        u64 n;
        explicit Path(long i) : n(strlen(paths[i])) {
            p = n ? (u8*)malloc(n) : nullptr;
            if(n) memcpy(p, paths[i], n);
        }
        ~Path() {
            ::free(p);
        }
        String_View v() const {
            return String_View{p, n};
        }
    };
    std::string observe() {
        std::string r = "[";
        chmod("sub", 0700);
        for(int i = 1; i <= 3; i++) {
            if(i > 1) r += ",";
            struct stat st;
            if(__real_stat(paths[i], &st)) {
                r += "{\"st\":\"none\",\"c\":[0,0],\"r\":true,\"w\":true,\"t\":[0,0]}";
                continue;
            }
            std::string c = "[-2,0]";
            bool big = st.st_size > (1l << 32);
            if(!big) {
                chmod(paths[i], 0600);
                std::vector<u8> b((size_t)st.st_size + 1);
                int fd = __real_open(paths[i], O_RDONLY);
                ssize_t n = 0, k;
                while((k = __real_read(fd, b.data() + n, b.size() - (size_t)n)) > 0) n += k;
                __real_close(fd);
                chmod(paths[i], st.st_mode & 0777);
                c = identify(b.data(), (u64)n);
            }
            r += std::string("{\"st\":\"") + (big ? "big" : "file") + "\",\"c\":" + c + ",\"r\":" + (st.st_mode & 0400 ? "true" : "false") +
                 ",\"w\":" + (st.st_mode & 0200 ? "true" : "false") + ",\"t\":" + pair_of((long)st.st_mtim.tv_sec, (long)st.st_mtim.tv_nsec) + "}";
        }
        if(!sub) chmod("sub", 0);
        return r + "]";
    }
    void environment(const Op& op) {
        chmod("sub", 0700);
        const char* p = paths[op.get("p")];
        struct stat st;
        bool there = p && !__real_stat(p, &st);
        if(op.name == "eput" || op.name == "ebig") {
            if(there) chmod(p, 0600);
            int fd = __real_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
            fchmod(fd, 0600);
            if(op.name == "ebig") {
                if(ftruncate(fd, (1l << 32) + 5)) _exit(95);
            } else {
                std::vector<u8> b((size_t)op.get("n"));
                for(size_t i = 0; i < b.size(); i++) b[i] = stream(op.get("s"), i);
                for(size_t d = 0; d < b.size();) {
                    ssize_t k = __real_write(fd, b.data() + d, b.size() - d);
                    if(k <= 0) _exit(96);
                    d += (size_t)k;
                }
            }
            __real_close(fd);
        } else if(op.name == "erm") {
            unlink(p);
        } else if(op.name == "emode" && there) {
            chmod(p, (op.get("m") & 1 ? 0400 : 0) | (op.get("m") & 2 ? 0200 : 0));
        } else if(op.name == "esub") {
            sub = op.get("m");
        } else if(op.name == "etime" && there) {
            struct timespec t[2];
            t[0] = t[1] = {op.get("t"), op.get("u") == 2 ? 999999999 : op.get("u")};
            utimensat(AT_FDCWD, p, t, 0);
        }
        if(!sub) chmod("sub", 0);
    }
    void arm(const Op& op) {
        plan.call = 0;
        plan.flip = 0;
        plan.inj.clear();
        plan.f = op.get("f");
        plan.k = op.get("k");
        plan.g = op.get("g");
        plan.h = op.get("h");
        memset(plan.target, 0, sizeof plan.target);
        plan.armed = true;
    }
    void content(Ev& e, const Opt<Vec<u8, Files::Alloc>>& r) {
        e.boolean("ok", r.ok());
        e.raw("c", r.ok() ? identify(r->data(), r->length()) : "[0,0]");
    }
    void time(Ev& e, u64 t) {
        long long v = (long long)t, s = v / 1000000000, n = v % 1000000000;
        if(n < 0) n += 1000000000, s--;
        e.raw("t", pair_of((long)s, (long)n));
    }
    void go(const Script& sc) {
        char dir[] = "scratch.XXXXXX";
        if(!mkdtemp(dir) || chdir(dir)) _exit(91);
        if(geteuid() == 0) {
            if(chown(".", 65534, 65534) || setgroups(0, nullptr) || setgid(65534) || setuid(65534)) _exit(92);
        }
        umask(022);
        if(mkdir("sub", 0700) || symlink("a", "link") || symlink("sub/c", "link2")) _exit(93);
        warn("the log is open");
        for(size_t i = 0; i < sc.size(); i++) {
            const Op& op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            Ev e;
            e.head(op, "ok");
            if((op.get("a") || n == "reset") && !pool) {
                base = fds();
                for(auto& o : sc)
                    if(o.get("a")) {
                        pool = new Async::Pool<>;
                        break;
                    }
            }
            if(n == "end") {
                for(auto*& w : watch) delete w;
                delete pool;
            }
            if(n == "write") {
                Path p{op.get("p")};
                u64 len = (u64)op.get("n");
                u8* d = len ? (u8*)malloc(len) : nullptr;
                for(u64 j = 0; j < len; j++) d[j] = stream(op.get("s"), j);
                bool ok;
                arm(op);
                if(op.get("a")) ok = Async::write(*pool, p.v(), Slice<u8>{d, len}).block();
                else ok = Files::write(p.v(), Slice<const u8>{d, len});
                plan.armed = false;
                ::free(d);
                e.boolean("ok", ok);
            } else if(n == "read") {
                Path p{op.get("p")};
                arm(op);
                if(op.get("a")) {
                    auto r = Async::read(*pool, p.v()).block();
                    plan.armed = false;
                    content(e, r);
                } else {
                    auto r = Files::read(p.v());
                    plan.armed = false;
                    content(e, r);
                }
            } else if(n == "lwt") {
                Path p{op.get("p")};
                arm(op);
                auto r = Files::last_write_time(p.v());
                plan.armed = false;
                e.boolean("ok", r.ok());
                time(e, r.ok() ? *r : 0);
            } else if(n == "wnew") {
                long w = op.get("w") - 1;
                delete watch[w];
                watch[w] = nullptr;
                plan.inj.clear();
                // the watcher keeps a view of the path
                watch[w] = new Files::Write_Watcher{(new Path{op.get("p")})->v()};
            } else if(n == "poll" || n == "wread") {
                long w = op.get("w") - 1;
                arm(op);
                if(!watch[w]) {
                    plan.armed = false;
                    e.boolean("ok", false);
                    e.raw("c", "[0,0]");
                } else if(n == "poll") {
                    bool r = watch[w]->poll();
                    plan.armed = false;
                    e.boolean("ok", r);
                } else {
                    auto r = watch[w]->read();
                    plan.armed = false;
                    content(e, r);
                }
            } else if(n != "reset" && n != "end") {
                plan.inj.clear();
                environment(op);
            }
            e.num("fds", n == "end" ? fds_expect(base) - base : left_open());
            if(n != "reset" && n != "end") {
                e.raw("inj", "[" + plan.inj + "]");
                e.raw("obs", observe());
            }
            e.num("err", g_err);
            emit(e);
        }
        chmod("sub", 0700);
        for(int i = 1; i <= 3; i++) unlink(paths[i]);
    }
};
} // namespace
int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) { (new Run)->go(sc); });
}
