// Script interpreter shared by the sequential conformance drivers.
//
// A driver reads scripts (one operation per line: "op k=v k=v ..."), runs every script in a
// forked child against the real library, and writes one ndjson event per operation. The event
// echoes the operation and its arguments and adds "out" (how the call ended) plus whatever the
// driver observed through the public API afterwards. The TLA+ trace specifications judge the
// events; the driver itself decides nothing.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <type_traits>

#include <rpp/base.h>

namespace drv {

struct Op {
    std::string name;
    std::vector<std::pair<std::string, long>> args;
    long get(const char* k, long dflt = 0) const {
        for(auto& a : args)
            if(a.first == k) return a.second;
        return dflt;
    }
    bool has(const char* k) const {
        for(auto& a : args)
            if(a.first == k) return true;
        return false;
    }
    void set(const char* k, long v) {
        for(auto& a : args)
            if(a.first == k) {
                a.second = v;
                return;
            }
        args.push_back({k, v});
    }
};

// JSON event under construction
struct Ev {
    std::string s;
    bool first = true;
    void key(const char* k) {
        s += first ? "{\"" : ",\"";
        first = false;
        s += k;
        s += "\":";
    }
    void num(const char* k, long v) {
        key(k);
        s += std::to_string(v);
    }
    void boolean(const char* k, bool v) {
        key(k);
        s += v ? "true" : "false";
    }
    void str(const char* k, const std::string& v) {
        key(k);
        s += '"';
        for(unsigned char c : v) {
            if(c == '"' || c == '\\') {
                s += '\\';
                s += (char)c;
            } else if(c < 32 || c > 126) {
                char b[8];
                snprintf(b, 8, "\\u%04x", c);
                s += b;
            } else
                s += (char)c;
        }
        s += '"';
    }
    void raw(const char* k, const std::string& v) {
        key(k);
        s += v;
    }
    template<typename V> static std::string arr(const V& v) {
        std::string r = "[";
        bool f = true;
        for(auto& x : v) {
            if(!f) r += ",";
            f = false;
            r += std::to_string((long)x);
        }
        return r + "]";
    }
    template<typename V> void nums(const char* k, const V& v) {
        raw(k, arr(v));
    }
    void head(const Op& op, const char* out) {
        str("op", op.name);
        for(auto& a : op.args) num(a.first.c_str(), a.second);
        str("out", out);
    }
};

inline int trace_fd = -1;
inline void write_all(const char* p, size_t n) {
    while(n) {
        ssize_t k = ::write(trace_fd, p, n);
        if(k < 0) {
            if(errno == EINTR) continue;
            _exit(99);
        }
        p += k;
        n -= (size_t)k;
    }
}
inline void emit(Ev& e) {
    e.s += "}\n";
    write_all(e.s.data(), e.s.size());
}

struct Shared {
    volatile long current; // index of the operation being executed, -1 when none
    volatile long done;    // script ran to its end
};
inline Shared* shared = nullptr;

using Script = std::vector<Op>;

inline std::vector<Script> read_scripts(const char* path) {
    std::vector<Script> r;
    FILE* f = fopen(path, "r");
    if(!f) {
        perror(path);
        exit(2);
    }
    char line[65536];
    while(fgets(line, sizeof line, f)) {
        Op op;
        char* save = nullptr;
        for(char* t = strtok_r(line, " \t\n", &save); t; t = strtok_r(nullptr, " \t\n", &save)) {
            if(op.name.empty()) {
                op.name = t;
                continue;
            }
            char* eq = strchr(t, '=');
            if(!eq) {
                fprintf(stderr, "bad script token %s\n", t);
                exit(2);
            }
            *eq = 0;
            op.args.push_back({t, strtol(eq + 1, nullptr, 10)});
        }
        if(op.name.empty()) continue;
        if(op.name == "reset") r.push_back({});
        if(r.empty()) {
            fprintf(stderr, "script does not start with reset\n");
            exit(2);
        }
        r.back().push_back(op);
    }
    fclose(f);
    return r;
}

// Runs each script in a child. `run(script, step)` executes the script; it must call
// begin_op(i) before operation i and emit exactly one event per operation.
inline void begin_op(long i) {
    shared->current = i;
}

// what to add to the event of an operation that ended its process
inline void (*on_death)(Ev&) = nullptr;

template<typename F> int drive(int argc, char** argv, F&& run, unsigned timeout_s = 20) {
    if(argc < 3) {
        fprintf(stderr, "usage: driver SCRIPT TRACE\n");
        return 2;
    }
    signal(SIGPIPE, SIG_IGN);
    auto scripts = read_scripts(argv[1]);
    trace_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644);
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int hangs = 0;
    for(auto& sc : scripts) {
        shared->current = -1;
        shared->done = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if(pid < 0) {
            perror("fork");
            return 2;
        }
        if(pid == 0) {
            alarm(timeout_s);
            run(sc);
            shared->done = 1;
            fflush(nullptr);
            _exit(0);
        }
        int st = 0;
        while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if(shared->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if(WIFEXITED(st) && WEXITSTATUS(st) >= 90) {
            fprintf(stderr, "harness failure %d\n", WEXITSTATUS(st));
            return 2;
        }
        const char* out = "crash";
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        if(sig == SIGTRAP)
            out = "die";
        else if(sig == SIGALRM)
            out = "hang";
        else if(!sig)
            out = "exit";
        long cur = shared->current;
        if(cur < 0 || cur >= (long)sc.size()) cur = 0;
        Ev e;
        e.head(sc[(size_t)cur], out);
        e.num("sig", sig);
        e.num("status", sig ? 0 : WEXITSTATUS(st));
        if(on_death) on_death(e);
        emit(e);
        // one hang is a finding already; more of them only take time
        if(sig == SIGALRM && ++hangs == 2) break;
    }
    return 0;
}

//////////////////////////////////////////////////////////////////////////////////////////////
// Element types whose construction, relocation and destruction is observable

inline long g_live = 0; // tokens alive
inline long g_err = 0;  // token protocol violations (double destroy, memcpy relocation, use after)
inline std::string g_what;
inline std::vector<char> g_alive;
inline long g_moves = 0;
inline int g_div = 1; // values compare by value / g_div

inline void tok_err(const char* w) {
    g_err++;
    if(g_what.empty()) g_what = w;
}
inline int tok_new() {
    g_alive.push_back(1);
    g_live++;
    return (int)g_alive.size() - 1;
}

// Owns a token. Bitwise copies are detected through the self pointer.
struct TokBase {
    int v;
    int id;
    TokBase* self;

    bool here() const {
        return self == this;
    }
    void check(const char* w) const {
        if(!here()) tok_err(w);
    }
    int value() const {
        check("read of an object that was not constructed here");
        if(here() && id < 0) {
            tok_err("read of a moved-from object");
            return -1;
        }
        return v;
    }
    void init(int val) {
        v = val;
        id = tok_new();
        self = this;
    }
    void steal(TokBase& o, const char* w) {
        o.check(w);
        g_moves++;
        v = o.v;
        id = o.here() ? o.id : -1;
        self = this;
        if(o.here()) o.id = -1;
    }
    void release() {
        if(!here()) {
            tok_err("destruction of an object that is not there");
            return;
        }
        if(id >= 0) {
            if(!g_alive[(size_t)id])
                tok_err("double destruction");
            else {
                g_alive[(size_t)id] = 0;
                g_live--;
            }
        }
        id = -1;
        self = nullptr;
    }
};

// move-only, clonable
struct TokM : TokBase {
    TokM() {
        init(0);
    }
    explicit TokM(int x) {
        init(x);
    }
    TokM(TokM&& o) noexcept {
        steal(o, "move from an object that is not there");
    }
    TokM& operator=(TokM&& o) noexcept {
        if(this != &o) {
            check("assignment to an object that is not there");
            release();
            steal(o, "move from an object that is not there");
        }
        return *this;
    }
    TokM(const TokM&) = delete;
    TokM& operator=(const TokM&) = delete;
    ~TokM() {
        release();
    }
    TokM clone() const {
        check("clone of an object that is not there");
        return TokM{v};
    }
    bool operator<(const TokM& o) const {
        return value() / g_div < o.value() / g_div;
    }
    bool operator==(const TokM& o) const {
        return value() == o.value();
    }
};
// copy constructible, no clone()
struct TokC : TokBase {
    TokC() {
        init(0);
    }
    explicit TokC(int x) {
        init(x);
    }
    TokC(TokC&& o) noexcept {
        steal(o, "move from an object that is not there");
    }
    TokC& operator=(TokC&& o) noexcept {
        if(this != &o) {
            check("assignment to an object that is not there");
            release();
            steal(o, "move from an object that is not there");
        }
        return *this;
    }
    TokC(const TokC& o) {
        o.check("copy of an object that is not there");
        init(o.v);
    }
    TokC& operator=(const TokC& o) {
        if(this != &o) {
            check("assignment to an object that is not there");
            o.check("copy of an object that is not there");
            release();
            init(o.v);
        }
        return *this;
    }
    ~TokC() {
        release();
    }
    bool operator<(const TokC& o) const {
        return value() / g_div < o.value() / g_div;
    }
    bool operator==(const TokC& o) const {
        return value() == o.value();
    }
};
// trivial, odd size
struct Triv {
    int v = 0;
    short pad[3] = {7, 8, 9};
    Triv() = default;
    explicit Triv(int x) : v(x) {
    }
    int value() const {
        return pad[0] == 7 && pad[1] == 8 && pad[2] == 9 ? v : -2;
    }
    bool operator<(const Triv& o) const {
        return value() / g_div < o.value() / g_div;
    }
    bool operator==(const Triv& o) const {
        return value() == o.value();
    }
};
// trivially movable, not copyable, clonable
struct TrivM {
    int v = 0;
    TrivM() = default;
    explicit TrivM(int x) : v(x) {
    }
    TrivM(TrivM&&) = default;
    TrivM& operator=(TrivM&&) = default;
    TrivM(const TrivM&) = delete;
    TrivM& operator=(const TrivM&) = delete;
    TrivM clone() const {
        return TrivM{v};
    }
    int value() const {
        return v;
    }
    bool operator<(const TrivM& o) const {
        return v / g_div < o.v / g_div;
    }
    bool operator==(const TrivM& o) const {
        return v == o.v;
    }
};
// an aggregate without initialisers
struct Pod {
    int v;
    int value() const {
        return v;
    }
    bool operator<(const Pod& o) const {
        return v / g_div < o.v / g_div;
    }
    bool operator==(const Pod& o) const {
        return v == o.v;
    }
};
template<typename E> constexpr bool counted = std::is_base_of_v<TokBase, E>;

//////////////////////////////////////////////////////////////////////////////////////////////
// Allocator whose blocks are counted; over- and underruns and use after free are left to ASan

inline long g_blocks = 0;
inline long g_alloc_calls = 0;
inline std::unordered_map<void*, size_t>& block_map() {
    static std::unordered_map<void*, size_t> m;
    return m;
}
template<int K = 0> struct TestAlloc {
    constexpr static rpp::Literal name = "TestAlloc";
    static void* alloc(rpp::u64 size) noexcept {
        if(!size) return nullptr;
        if(size > (1ul << 30)) {
            tok_err("absurd allocation size");
            _exit(77);
        }
        void* p = malloc(size);
        memset(p, 0xA5, size);
        block_map()[p] = size;
        g_blocks++;
        g_alloc_calls++;
        return p;
    }
    static void free(void* p) noexcept {
        if(!p) return;
        auto it = block_map().find(p);
        if(it == block_map().end()) {
            tok_err("free of a block that is not allocated");
            return;
        }
        memset(p, 0x5A, it->second);
        block_map().erase(it);
        g_blocks--;
        ::free(p);
    }
};

} // namespace drv
