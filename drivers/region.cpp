// Conformance driver for the region allocator (C09). Every operation names the thread that
// performs it; threads take turns. Live blocks are filled with a pattern that is checked after
// every operation.
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>
#include "common.h"
#include "containers.h"
using namespace drv;
using RA = rpp::Region_Allocator;
using rpp::u64;
using rpp::u8;

namespace {
constexpr int NT = 3;
struct Block {
    u8* p;
    u64 n;
    u8 pat;
    size_t depth;
};
struct Open {
    long brand;
    std::function<void()> close;
};
template<rpp::Region B> std::function<void()> open_scope() {
    auto* p = (RA::Scope<B>*)malloc(sizeof(RA::Scope<B>));
    new(p) RA::Scope<B>{};
    return [p] {
        p->~Scope();
        ::free(p);
    };
}
struct Worker {
    std::mutex mu;
    std::condition_variable cv;
    std::function<void()> job;
    bool quit = false;
    std::thread th;
    void start() {
        quit = false;
        th = std::thread([this] {
            std::unique_lock<std::mutex> lk(mu);
            for(;;) {
                cv.wait(lk, [&] { return job || quit; });
                if(quit) return;
                job();
                job = nullptr;
                cv.notify_all();
            }
        });
    }
    void run(std::function<void()> f) {
        std::unique_lock<std::mutex> lk(mu);
        job = f;
        cv.notify_all();
        cv.wait(lk, [&] { return !job; });
    }
    void stop() {
        {
            std::unique_lock<std::mutex> lk(mu);
            quit = true;
            cv.notify_all();
        }
        th.join();
    }
};
struct Run {
    Worker w[NT];
    std::vector<Open> open[NT];
    std::vector<Block> blk[NT];
    long base = 0;
    int pat = 1;
    long bad() {
        long r = 0;
        for(auto& v : blk)
            for(auto& b : v)
                for(u64 i = 0; i < b.n; i++)
                    if(b.p[i] != b.pat) {
                        r++;
                        break;
                    }
        return r;
    }
    template<rpp::Region B> void* region_alloc(u64 n, long how) {
        if(how % 2) return rpp::Mregion<B>::alloc(n);
        return RA::alloc(B, n);
    }
    void go(const Script& sc) {
        for(auto& x : w) x.start();
        base = rpp::sys_net_allocs();
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            if(op.name == "end" && !op.has("t")) op.name = "fin";
            begin_op((long)i);
            const std::string& n = op.name;
            long t = op.get("t", 1) - 1;
            u64 b = (u64)op.get("b");
            u64 size = (u64)op.get("n");
            if(n == "fin") {
                for(int k = 0; k < NT; k++)
                    w[k].run([&, k] {
                        while(!open[k].empty()) {
                            open[k].back().close();
                            open[k].pop_back();
                        }
                        blk[k].clear();
                    });
            } else if(n == "begin") {
                w[t].run([&] {
                    std::function<void()> f;
                    switch(b) {
                    case 1: f = open_scope<1>(); break;
                    case 2: f = open_scope<2>(); break;
                    default: f = open_scope<3>(); break;
                    }
                    open[t].push_back({(long)b, f});
                });
            } else if(n == "alloc") {
                w[t].run([&] {
                    void* p;
                    switch(b) {
                    case 1: p = region_alloc<1>(size, (long)i); break;
                    case 2: p = region_alloc<2>(size, (long)i); break;
                    default: p = region_alloc<3>(size, (long)i); break;
                    }
                    pat = pat % 250 + 1;
                    memset(p, pat, size);
                    blk[t].push_back({(u8*)p, size, (u8)pat, open[t].size()});
                });
            } else if(n == "free") {
                w[t].run([&] { RA::free(b, blk[t].empty() ? nullptr : blk[t].back().p); });
            } else if(n == "use") {
                // a container living in the region
                w[t].run([&] {
                    u64 before = RA::size();
                    if(b == 1) {
                        rpp::Vec<int, rpp::Mregion<1>> v;
                        (void)before;
                    } else if(b == 2) {
                        rpp::Mregion<2>::free(nullptr);
                    } else
                        rpp::Mregion<3>::free(nullptr);
                    if(b == 1) rpp::Mregion<1>::free(nullptr);
                });
            } else if(n == "end") {
                w[t].run([&] {
                    // destroys the innermost open scope with that brand, or any of that brand
                    size_t k = open[t].size();
                    while(k > 0 && open[t][k - 1].brand != (long)b) k--;
                    if(k == 0) {
                        if(b == 1) ((RA::Scope<1>*)&k)->~Scope();
                        if(b == 2) ((RA::Scope<2>*)&k)->~Scope();
                        if(b == 3) ((RA::Scope<3>*)&k)->~Scope();
                        return;
                    }
                    auto f = open[t][k - 1].close;
                    f();
                    open[t].erase(open[t].begin() + (long)k - 1);
                    while(!blk[t].empty() && blk[t].back().depth > open[t].size()) blk[t].pop_back();
                });
            } else if(n == "quit") {
                w[t].stop();
                w[t].start();
            }
            Ev e;
            e.head(op, "ok");
            std::vector<long> d, s;
            for(int k = 0; k < NT; k++)
                w[k].run([&] {
                    d.push_back((long)RA::depth());
                    s.push_back((long)RA::size());
                });
            e.nums("depth", d);
            e.nums("size", s);
            e.num("bad", bad());
            e.num("net", rpp::sys_net_allocs() - base);
            emit(e);
        }
        for(auto& x : w) x.stop();
    }
};
} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) { (new Run)->go(sc); });
}
