// Conformance driver for checked misuse (C23). Each script runs in a child whose standard output,
// log file and log callbacks are examined by the parent after its end.
#include "common.h"
#include <thread>
#include <rpp/async.h>
#include <rpp/heap.h>
#include <rpp/log_callback.h>
#include <rpp/queue.h>
#include <rpp/rc.h>
#include <rpp/stack.h>
#include <rpp/vmath.h>
using namespace rpp;
using namespace drv;

namespace {
using A = Mallocator<"Misuse">;
struct Seen {
    long fatal[4];   // fatal messages per callback
    long changed;    // the object when the process was about to end: 0 unchanged, 1 changed, -1 not seen
    long err;
    off_t out_from, log_from;
}* seen;
int out_fd = -1, log_fd = -1;
long fatal_lines(int fd, off_t from) {
    std::string s;
    char b[4096];
    ssize_t n;
    while((n = pread(fd, b, sizeof b, from)) > 0) {
        s.append(b, (size_t)n);
        from += n;
    }
    long c = 0;
    for(size_t p = 0; (p = s.find("[fatal/", p)) != std::string::npos; p++) c++;
    return c;
}
off_t size_of(int fd) {
    return lseek(fd, 0, SEEK_END);
}
void sinks(Ev& e) {
    e.num("fout", fatal_lines(out_fd, seen->out_from));
    e.num("flog", fatal_lines(log_fd, seen->log_from));
    e.nums("fcb", std::vector<long>(seen->fatal, seen->fatal + 4));
    e.num("changed", seen->changed);
    e.num("err", seen->err);
}

// the memory of the object before the operation
struct Piece {
    const u8* p;
    std::vector<u8> was;
};
std::vector<Piece> pieces;
bool watching = false;
void keep(const void* p, u64 n) {
    if(p && n) pieces.push_back({(const u8*)p, std::vector<u8>((const u8*)p, (const u8*)p + n)});
}
void look() {
    if(!watching || seen->changed != -1) return;
    bool c = false;
    for(auto& x : pieces) c |= memcmp(x.p, x.was.data(), x.was.size()) != 0;
    seen->changed = c;
    seen->err = g_err;
}
long mode = 0;
void on_trap(int) {
    look();
    if(mode == 0) {
        signal(SIGTRAP, SIG_DFL);
        raise(SIGTRAP);
    }
}

u64 number(long i) {
    switch(i) {
    case -1: return ~0ull;
    case -2: return ~0ull - 1;
    case -3: return 1ull << 63;
    case -4: return 1ull << 32;
    case -5: return (1ull << 32) + 1;
    default: return (u64)i;
    }
}
long val(int x) {
    return x;
}
long val(const TokM& x) {
    return x.value();
}
long val(u8 x) {
    return x;
}
using L = std::vector<long>;

struct Obj {
    virtual ~Obj() {}
    virtual void snapshot() = 0;
    virtual L apply(const Op& op) = 0;
};
[[noreturn]] void what(const Op& op) {
    fprintf(stderr, "no such operation: %s\n", op.name.c_str());
    _exit(94);
}
template<typename C> long element(C& c, const Op& op) {
    const C& k = c;
    u64 i = number(op.get("i"));
    if constexpr(std::is_same_v<std::remove_cv_t<C>, Math::Mat4>) return op.get("v") ? (long)c[i].x : (long)k[i].x;
    else return op.get("v") ? val(c[i]) : val(k[i]);
}
template<typename T> struct OVec : Obj {
    Vec<T, A> c;
    void snapshot() override {
        keep(&c, sizeof c);
        keep(c.begin(), c.length() * sizeof(T));
    }
    L apply(const Op& op) override {
        const auto& k = c;
        if(op.name == "push") return c.push(T{(int)op.get("v")}), L{};
        if(op.name == "pop") return c.pop(), L{};
        if(op.name == "clear") return c.clear(), L{};
        if(op.name == "at") return {element(c, op)};
        if(op.name == "front") return {op.get("v") ? val(c.front()) : val(k.front())};
        if(op.name == "back") return {op.get("v") ? val(c.back()) : val(k.back())};
        what(op);
    }
};
template<typename T> struct OQueue : Obj {
    Queue<T, A> c;
    void snapshot() override {
        keep(&c, sizeof c);
        for(u64 i = 0; i < c.length(); i++) keep(&c[i], sizeof(T));
    }
    L apply(const Op& op) override {
        const auto& k = c;
        if(op.name == "push") return c.push(T{(int)op.get("v")}), L{};
        if(op.name == "pop") return c.pop(), L{};
        if(op.name == "clear") return c.clear(), L{};
        if(op.name == "at") return {element(c, op)};
        if(op.name == "front") return {op.get("v") ? val(c.front()) : val(k.front())};
        if(op.name == "back") return {op.get("v") ? val(c.back()) : val(k.back())};
        if(op.name == "pen") return {op.get("v") ? val(c.penultimate()) : val(k.penultimate())};
        what(op);
    }
};
template<typename T> struct OStack : Obj {
    Stack<T, A> c;
    void snapshot() override {
        keep(&c, sizeof c);
        for(auto& x : c) keep(&x, sizeof(T));
    }
    L apply(const Op& op) override {
        const auto& k = c;
        if(op.name == "push") return c.push(T{(int)op.get("v")}), L{};
        if(op.name == "pop") return c.pop(), L{};
        if(op.name == "clear") return c.clear(), L{};
        if(op.name == "top") return {op.get("v") ? val(c.top()) : val(k.top())};
        what(op);
    }
};
template<typename T> struct OHeap : Obj {
    Heap<T, A> c;
    void snapshot() override {
        keep(&c, sizeof c);
        for(auto& x : c) keep(&x, sizeof(T));
    }
    L apply(const Op& op) override {
        const auto& k = c;
        if(op.name == "push") return c.push(T{(int)op.get("v")}), L{};
        if(op.name == "pop") return c.pop(), L{};
        if(op.name == "clear") return c.clear(), L{};
        if(op.name == "top") return {op.get("v") ? val(c.top()) : val(k.top())};
        what(op);
    }
};
struct OArray : Obj {
    Array<int, 4> c{1, 2, 3, 4};
    void snapshot() override {
        keep(&c, sizeof c);
    }
    L apply(const Op& op) override {
        if(op.name == "at") return {element(c, op)};
        what(op);
    }
};
struct OMat : Obj {
    Math::Mat4 c;
    OMat() {
        for(u64 i = 0; i < 4; i++) c[i] = Math::Vec4{(f32)i + 1, 0.0f, 0.0f, 0.0f};
    }
    void snapshot() override {
        keep(&c, sizeof c);
    }
    L apply(const Op& op) override {
        if(op.name == "at") return {element(c, op)};
        what(op);
    }
};
struct OSlice : Obj {
    int* d;
    u64 n;
    Slice<int> c;
    explicit OSlice(u64 n) : d(n ? (int*)malloc(n * 4) : nullptr), n(n), c(d, n) {
        for(u64 i = 0; i < n; i++) d[i] = (int)i + 1;
    }
    ~OSlice() override {
        ::free(d);
    }
    void snapshot() override {
        keep(&c, sizeof c);
        keep(d, n * 4);
    }
    L apply(const Op& op) override {
        const auto& k = c;
        if(op.name == "at") return {element(c, op)};
        if(op.name == "front") return {val(k.front())};
        if(op.name == "back") return {val(k.back())};
        if(op.name == "sub") {
            auto s = k.sub(number(op.get("i")), number(op.get("j")));
            L r;
            for(u64 i = 0; i < s.length(); i++) r.push_back(s.data()[i]);
            return r;
        }
        what(op);
    }
};
L bytes(String_View v) {
    L r;
    for(u64 i = 0; i < v.length(); i++) r.push_back(v.data()[i]);
    return r;
}
struct OView : Obj {
    u8* d;
    u64 n;
    String_View c;
    explicit OView(u64 n) : d(n ? (u8*)malloc(n) : nullptr), n(n), c(d, n) {
        for(u64 i = 0; i < n; i++) d[i] = (u8)(i + 1);
    }
    ~OView() override {
        ::free(d);
    }
    void snapshot() override {
        keep(&c, sizeof c);
        keep(d, n);
    }
    L apply(const Op& op) override {
        if(op.name == "at") return {c[number(op.get("i"))]};
        if(op.name == "sub") return bytes(c.sub(number(op.get("i")), number(op.get("j"))));
        what(op);
    }
};
struct OString : Obj {
    String<A> c;
    u64 cap;
    OString(u64 n, u64 more) : c(n + more), cap(n + more) {
        c.set_length(n);
        for(u64 i = 0; i < n; i++) c[i] = (u8)(i + 1);
    }
    void snapshot() override {
        keep(&c, sizeof c);
        keep(c.data(), cap);
    }
    L apply(const Op& op) override {
        u64 i = number(op.get("i"));
        if(op.name == "at") return {element(c, op)};
        if(op.name == "sub") return bytes(c.sub(i, number(op.get("j"))));
        if(op.name == "setlen") {
            u64 old = c.length();
            c.set_length(i);
            L r{(long)c.length()};
            if(i > old) c.set_length(old);
            return r;
        }
        L r;
        if(op.name == "writec") r = {(long)c.write(i, (char)99)};
        else {
            u64 n = (u64)op.get("j");
            String<A> t(n);
            t.set_length(n);
            for(u64 j = 0; j < n; j++) t[j] = 50;
            if(op.name == "writes") r = {(long)c.write(i, t)};
            else if(op.name == "writev") r = {(long)c.write(i, t.view())};
            else what(op);
        }
        for(long x : bytes(c.view())) r.push_back(x);
        return r;
    }
};
template<typename T> struct OMap : Obj {
    Map<int, T, A> c;
    void snapshot() override {
        keep(&c, sizeof c);
        for(auto& x : c) keep(&x, sizeof x);
    }
    L apply(const Op& op) override {
        const auto& k = c;
        int i = (int)op.get("i");
        if(op.name == "push") return c.insert((int)op.get("v"), T{(int)op.get("v") + 100}), L{};
        if(op.name == "clear") return c.clear(), L{};
        if(op.name == "get") return {op.get("v") ? val(c.get(i)) : val(k.get(i))};
        if(op.name == "erase") return c.erase(i), L{};
        what(op);
    }
};
// makes an owner empty, either by clearing or by moving its content away
template<typename C> void gone(C& c, bool move) {
    if constexpr(requires { c.clear(); })
        if(!move) return c.clear();
    C other{rpp::move(c)};
    static_cast<void>(other);
}
template<typename T> struct OOpt : Obj {
    Opt<T> c;
    void snapshot() override {
        keep(&c, sizeof c);
    }
    L apply(const Op& op) override {
        const auto& k = c;
        if(op.name == "push") return c.emplace(7), L{};
        if(op.name == "drop") return gone(c, false), L{};
        if(op.name == "deref") return {op.get("v") ? val(*c) : val(*k)};
        if(op.name == "arrow") return {op.get("v") ? val(*c.operator->()) : val(*k.operator->())};
        what(op);
    }
};
template<typename C> struct OPtr : Obj {
    C c;
    using T = std::remove_cvref_t<decltype(*c)>;
    void snapshot() override {
        keep(&c, sizeof c);
    }
    L apply(const Op& op) override {
        const auto& k = c;
        if(op.name == "push") return c = C{T{7}}, L{};
        if(op.name == "drop") {
            gone(c, op.get("v"));
            return {};
        }
        if(op.name == "deref") return {op.get("v") ? val(*c) : val(*k)};
        if(op.name == "arrow") return {op.get("v") ? val(*c.operator->()) : val(*k.operator->())};
        what(op);
    }
};
struct ORef : Obj {
    int x = 7;
    Ref<int> c;
    void snapshot() override {
        keep(&c, sizeof c);
    }
    L apply(const Op& op) override {
        const auto& k = c;
        if(op.name == "push") return c = Ref<int>{x}, L{};
        if(op.name == "drop") return c = Ref<int>{}, L{};
        if(op.name == "deref") return {op.get("v") ? val(*c) : val(*k)};
        if(op.name == "arrow") return {op.get("v") ? val(*c.operator->()) : val(*k.operator->())};
        what(op);
    }
};
struct OFun : Obj {
    Function<int()> c{[] { return 7; }};
    explicit OFun(bool full) {
        if(!full) Function<int()> other{rpp::move(c)};
    }
    void snapshot() override {
        keep(&c, sizeof c);
    }
    L apply(const Op& op) override {
        if(op.name == "push") return c = Function<int()>{[] { return 7; }}, L{};
        if(op.name == "drop") {
            if(op.get("v")) Function<int()> other{rpp::move(c)};
            else {
                Function<int()> other{[] { return 8; }};
                other = rpp::move(c);
            }
            return {};
        }
        if(op.name == "deref") return {c()};
        what(op);
    }
};
struct OThread : Obj {
    Thread::Thread<A> c;
    ~OThread() override {}
    void snapshot() override {
        keep(&c, sizeof c);
    }
    L apply(const Op& op) override {
        if(op.name == "push") return c = Thread::Thread<A>{[] {}}, L{};
        if(op.name == "deref") return c.join(), L{7};
        if(op.name == "leave") return c.detach(), L{};
        if(op.name == "arrow") return {c.id() ? 7 : 0};
        what(op);
    }
};
Async::Task<int> seven() {
    co_return 7;
}
Async::Task<int> awaiting(Async::Task<int>& t) {
    int r = co_await t;
    co_return r;
}
struct OTask : Obj {
    Async::Task<int> c = seven();
    explicit OTask(bool full) {
        if(!full) Async::Task<int> other{rpp::move(c)};
    }
    void snapshot() override {
        keep(&c, sizeof c);
    }
    L apply(const Op& op) override {
        if(op.name == "push") return c = seven(), L{};
        if(op.name == "drop") {
            Async::Task<int> other{rpp::move(c)};
            return {};
        }
        if(op.name == "leave") return c.resume(), L{};
        if(op.name == "deref") {
            if(op.get("v") == 0) return {c.block()};
            // the object is watched although the frame that awaits it is not left
            auto outer = awaiting(c);
            return {outer.block()};
        }
        if(op.name == "arrow") return {(op.get("v") ? c.done() : c.await_ready()) ? 7 : 0};
        what(op);
    }
};
struct OSub : Obj {
    std::vector<Log::Token> tokens;
    void snapshot() override {}
    L apply(const Op& op) override {
        if(op.name == "push") return tokens.push_back(Log::subscribe([](auto...) {})), L{};
        if(op.name == "erase") {
            size_t i = (size_t)op.get("i");
            return Log::unsubscribe(i < tokens.size() ? tokens[i] : 1000 + i), L{};
        }
        what(op);
    }
};
struct ORegion : Obj {
    void snapshot() override {}
    L apply(const Op& op) override {
        if(op.name == "push") return new Region_Allocator::Scope<1>{}, L{};
        if(op.name == "nest") {
            for(long i = 0; i < op.get("n"); i++) new Region_Allocator::Scope<1>{};
            return {};
        }
        what(op);
    }
};
template<typename T> Obj* make2(long k) {
    switch(k) {
    case 1: return new OVec<T>;
    case 2: return new OQueue<T>;
    case 3: return new OStack<T>;
    case 4: return new OHeap<T>;
    case 9: return new OMap<T>;
    case 10: return new OOpt<T>;
    case 11: return new OPtr<Box<T, A>>;
    case 12: return new OPtr<Rc<T, A>>;
    case 13: return new OPtr<Arc<T, A>>;
    }
    return nullptr;
}
Obj* make(const Op& op, long elem) {
    long k = op.get("k"), n = op.get("n"), c = op.get("c");
    Obj* o = elem ? make2<TokM>(k) : make2<int>(k);
    if(!o) switch(k) {
        case 5: return new OArray;
        case 6: return new OSlice((u64)n);
        case 7: return new OString((u64)n, (u64)c);
        case 8: return new OView((u64)n);
        case 15: return new OFun(n);
        case 17: return new OTask(n);
        case 18: return new OSub;
        case 19: return new OMat;
        case 20: return new ORegion;
        case 14: o = new ORef; break;
        case 16: o = new OThread; break;
        default: _exit(95);
        }
    for(long i = 1; i <= n; i++) {
        Op p{"push", {{"v", i}}};
        o->apply(p);
    }
    return o;
}
struct Run {
    Obj* o = nullptr;
    bool region = false;
    void go(const Script& sc) {
        memset(seen, 0, sizeof *seen);
        seen->changed = -1;
        seen->out_from = size_of(out_fd);
        seen->log_from = size_of(log_fd);
        long th = sc[0].get("t"), subs = sc[0].get("subs");
        mode = sc[0].get("h");
        signal(SIGTRAP, on_trap);
        atexit(look);
        // the fourth counter is never used by more than one
        for(long i = 0; i < subs; i++) static_cast<void>(Log::subscribe([i](Log::Level l, auto...) { seen->fatal[i] += l == Log::Level::fatal; }));
        for(long i = 0; i < sc[0].get("ind"); i++) new Log::Scope;
        for(size_t k = 0; k < sc.size(); k++) {
            const Op& op = sc[k];
            begin_op((long)k);
            Ev e;
            e.head(op, "ok");
            L res;
            auto body = [&] {
                region |= op.get("k") == 20;
                if(op.name == "make") o = make(op, sc[0].get("e"));
                else res = o->apply(op);
            };
            if(op.name == "end") {
                e.num("fout", fatal_lines(out_fd, seen->out_from) + fatal_lines(log_fd, seen->log_from));
            } else if(op.name != "reset") {
                pieces.clear();
                if(o) o->snapshot();
                seen->changed = -1;
                watching = true;
                if(th && op.name != "make" && !region) std::thread{body}.join();
                else body();
                watching = false;
                e.nums("res", res);
            }
            emit(e);
        }
    }
};
} // namespace
int main(int argc, char** argv) {
    if(argc < 3) return 2;
    seen = (Seen*)mmap(nullptr, sizeof(Seen), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    out_fd = memfd_create("stdout", MFD_CLOEXEC);
    dup2(out_fd, 1);
    fcntl(1, F_SETFL, O_APPEND);
    log_fd = open("debug.log", O_RDONLY | O_CLOEXEC);
    if(log_fd < 0) return 2;
    on_death = sinks;
    return drive(argc, argv, [](const Script& sc) { (new Run)->go(sc); });
}
