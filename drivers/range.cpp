// Conformance driver for Range_Allocator (C08).
#include "common.h"
#include "containers.h"
#include <rpp/range_allocator.h>
using namespace rpp;
using namespace drv;

namespace {
template<u64 BK, u64 BI> struct Run {
    using C = Range_Allocator<TestAlloc<6>, BK, BI>;
    static constexpr int N = 2;
    Slot<C> c[N];
    std::vector<typename C::Range> rs[N];
    static std::vector<long> range(typename C::Range r) {
        return {(long)r->offset, (long)r->length(), (long)r->padding()};
    }
    void state(Ev& e) {
        std::string st = "[";
        for(int i = 0; i < N; i++) {
            if(i) st += ",";
            if(!c[i].on) {
                st += "{\"on\":false}";
                continue;
            }
            auto q = c[i]->statistics();
            Ev s;
            s.boolean("on", true);
            s.num("free_size", (long)q.free_size);
            s.num("allocated_size", (long)q.allocated_size);
            s.num("free_blocks", (long)q.free_blocks);
            s.num("allocated_blocks", (long)q.allocated_blocks);
            s.num("high_water", (long)q.high_water);
            s.num("total_allocs", (long)q.total_allocs);
            s.num("total_frees", (long)q.total_frees);
            s.num("total_alloc_size", (long)q.total_alloc_size);
            s.num("total_free_size", (long)q.total_free_size);
            s.num("total_capacity", (long)q.total_capacity);
            std::vector<long> b;
            for(u64 k = 0; k < BK; k++) b.push_back((long)q.bucket_sizes[k]);
            s.nums("buckets", b);
            std::string r = "[";
            for(size_t k = 0; k < rs[i].size(); k++) r += (k ? "," : "") + Ev::arr(range(rs[i][k]));
            s.raw("rs", r + "]");
            st += s.s + "}";
        }
        e.raw("st", st + "]");
        e.num("err", g_err);
    }
    void go(const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            begin_op((long)i);
            const std::string n = op.name;
            long a = op.get("c") - 1, b = op.get("d") - 1;
            std::vector<long> r;
            // the script may rely on requests that the code was free to refuse
            bool skip = (n == "new" || n == "drop" || n == "clear") ? !rs[a].empty()
                      : (n == "movec" || n == "movea") ? !rs[b].empty() : false;
            if(skip) {
                Ev h;
                op.name = "skip";
                h.head(op, "ok");
                emit(h);
                continue;
            }
            if(n == "reset") {
            } else if(n == "end") {
                for(int k = 0; k < N; k++) {
                    // free in an order that depends on the script
                    while(!rs[k].empty()) {
                        size_t at = (sc.size() * 7) % rs[k].size();
                        c[k]->free(rs[k][at]);
                        rs[k].erase(rs[k].begin() + (long)at);
                    }
                    if(c[k].on) c[k]->statistics().assert_clear();
                    c[k].off();
                }
            } else if(n == "new") {
                c[a].emplace((u64)op.get("n"));
            } else if(n == "alloc" || n == "huge") {
                u64 size = n == "huge" ? ~0ull - (u64)op.get("n") : (u64)op.get("n");
                auto q = c[a]->allocate(size, (u64)op.get("a"));
                if(q.ok()) {
                    r = range(*q);
                    rs[a].push_back(*q);
                }
            } else if(n == "free") {
                size_t k = (size_t)op.get("i");
                if(k < rs[a].size()) {
                    c[a]->free(rs[a][k]);
                    rs[a].erase(rs[a].begin() + (long)k);
                    r = {1};
                }
            } else if(n == "movec") {
                c[b].put(rpp::move(*c[a]));
                rs[b].swap(rs[a]);
            } else if(n == "movea") {
                *c[b] = rpp::move(*c[a]);
                rs[b].swap(rs[a]);
            } else if(n == "drop") {
                c[a].off();
            } else if(n == "clear") {
                c[a]->statistics().assert_clear();
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            Ev h;
            h.head(op, "ok");
            h.nums("r", r);
            state(h);
            if(n == "end") h.num("blocks", g_blocks);
            emit(h);
        }
    }
};
} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) {
        long bk = sc[0].get("bk"), bi = sc[0].get("bi");
        if(bk == 24 && bi == 8)
            (new Run<24, 8>)->go(sc);
        else if(bk == 3 && bi == 0)
            (new Run<3, 0>)->go(sc);
        else if(bk == 1)
            (new Run<1, 0>)->go(sc);
        else if(bk == 5 && bi == 1)
            (new Run<5, 1>)->go(sc);
        else
            _exit(98);
    });
}
