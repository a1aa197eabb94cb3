// Conformance driver for String and String_View (C05).
#include "common.h"
#include <algorithm>
#include "containers.h"
using namespace rpp;
using namespace drv;

namespace {
const u8 table[16] = {0, 1, 97, 98, 47, 46, 92, 65, 90, 122, 32, 127, 128, 255, 10, 64};
using A1 = TestAlloc<4>;
using A2 = TestAlloc<5>;
using S = String<A1>;
constexpr int N = 3;
using V = std::vector<long>;
V bytes(String_View v) {
    V r;
    for(u8 c : v) r.push_back(c);
    return r;
}
struct Run {
    Slot<S> c[N];
    void state(Ev& e) {
        std::string st = "[";
        for(int i = 0; i < N; i++) {
            if(i) st += ",";
            if(!c[i].on) {
                st += "{\"on\":false,\"b\":[],\"n\":0,\"cap\":0,\"empty\":true}";
                continue;
            }
            const S& k = *c[i];
            V b;
            for(u64 j = 0; j < k.length(); j++) b.push_back(k[j]);
            bool same = bytes(k.view()) == b && k.view().length() == k.length() && k.view().empty() == k.empty();
            V it;
            for(u8 x : *c[i]) it.push_back(x);
            if(it != b || !same) tok_err("views of one string disagree");
            st += "{\"on\":true,\"b\":" + Ev::arr(b) + ",\"n\":" + std::to_string(k.length()) +
                  ",\"cap\":" + std::to_string(k.capacity()) + ",\"empty\":" + (k.empty() ? "true" : "false") + "}";
        }
        e.raw("st", st + "]");
        e.num("err", g_err);
    }
    // an exactly sized copy on the heap, so that reading beyond the end of a view is seen
    struct Exact {
        u8* p;
        u64 n;
        explicit Exact(const S& s) : n(s.length()) {
            p = (u8*)malloc(n ? n : 1);
            memcpy(p, s.data(), n);
            if(!n) {
                ::free(p);
                p = nullptr;
            }
        }
        ~Exact() {
            ::free(p);
        }
        String_View v() const {
            return String_View{p, n};
        }
    };
    void go(const Script& sc) {
        for(size_t i = 0; i < sc.size(); i++) {
            Op op = sc[i];
            begin_op((long)i);
            const std::string& n = op.name;
            long a = op.get("c") - 1, b = op.get("d") - 1, x = op.get("x") - 1;
            u64 at = (u64)op.get("i"), to = (u64)op.get("j");
            V r;
            Ev e;
            std::vector<u8> in;
            if(op.has("code")) {
                for(long k = 0; k < op.get("k"); k++) {
                    long code = op.get("code");
                    for(long q = 0; q < op.get("n"); q++, code /= 16) in.push_back(table[code % 16]);
                }
            }
            u8 ch = table[op.get("v") & 15];
            if(n == "reset" || n == "end") {
                if(n == "end")
                    for(auto& s : c) s.off();
            } else if(n == "mk") {
                in.shrink_to_fit();
                c[a].put(String_View{in.data(), in.size()}.string<A1>());
            } else if(n == "mkz" && in.size() % 2 == 0 && in.size() <= Literal::max_len) {
                // a literal is as long as its text, up to its greatest length
                Literal literal;
                std::copy(in.begin(), in.end(), (u8*)literal.c_string);
                c[a].put(String_View{literal}.string<A1>());
            } else if(n == "mkz") {
                in.push_back(0);
                c[a].put(String_View{(const char*)in.data()}.string<A1>());
            } else if(n == "mkw") {
                S s(in.size());
                s.set_length(in.size());
                u64 q = 0;
                for(u8 k : in) q = s.write(q, (char)k);
                c[a].put(rpp::move(s));
            } else if(n == "mki") {
                c[a].emplace((u64)in.size());
                c[a]->set_length(in.size());
                for(u64 q = 0; q < in.size(); q++) (*c[a])[q] = in[q];
            } else if(n == "mkv") {
                c[a].emplace((u64)in.size() + 3);
                c[a]->set_length(in.size());
                String_View v{in.data(), in.size()};
                String_View w = v.clone(), z;
                z = w;
                (void)c[a]->write(0, z);
            } else if(n == "clone") {
                const S& k = *c[a];
                S t = k.clone();
                c[b].put(rpp::move(t));
            } else if(n == "clonea") {
                *c[b] = c[a]->clone();
            } else if(n == "str") {
                S t = Exact(*c[a]).v().string<A1>();
                c[b].put(rpp::move(t));
            } else if(n == "swap") {
                if(a != b) rpp::swap(*c[a], *c[b]);
            } else if(n == "movec") {
                c[b].put(rpp::move(*c[a]));
            } else if(n == "movea") {
                *c[b] = rpp::move(*c[a]);
            } else if(n == "append") {
                auto other = c[b]->view().template string<A2>();
                S t = c[a]->template append<A1>(other);
                c[x].put(rpp::move(t));
            } else if(n == "vappend") {
                Exact p(*c[a]), q(*c[b]);
                S t = p.v().append<A1>(q.v());
                c[x].put(rpp::move(t));
            } else if(n == "term") {
                S t = c[a]->template terminate<A1>();
                c[x].put(rpp::move(t));
            } else if(n == "vterm") {
                S t = Exact(*c[a]).v().terminate<A1>();
                c[x].put(rpp::move(t));
            } else if(n == "write") {
                auto other = c[b]->view().template string<A2>();
                r = {(long)c[a]->write(at, other)};
            } else if(n == "vwrite") {
                Exact q(*c[b]);
                r = {(long)c[a]->write(at, q.v())};
            } else if(n == "writec") {
                r = {(long)c[a]->write(at, (char)ch)};
            } else if(n == "set") {
                (*c[a])[at] = ch;
            } else if(n == "get") {
                const S& k = *c[a];
                r = {k[at]};
                if((*c[a])[at] != r[0]) tok_err("const and mutable access differ");
            } else if(n == "vget") {
                r = {Exact(*c[a]).v()[at]};
            } else if(n == "sub") {
                r = bytes(c[a]->sub(at, to));
            } else if(n == "vsub") {
                Exact p(*c[a]);
                r = bytes(p.v().sub(at, to));
            } else if(n == "setlen") {
                c[a]->set_length((u64)op.get("n"));
            } else if(n == "path") {
                Exact p(*c[a]);
                e.nums("suf", bytes(p.v().file_suffix()));
                e.nums("rem", bytes(p.v().remove_file_suffix()));
                e.nums("ext", bytes(p.v().file_extension()));
            } else if(n == "ascii") {
                for(u8 k : *c[a]) {
                    r.push_back(ascii::to_uppercase(k));
                    r.push_back(ascii::to_lowercase(k));
                    r.push_back(ascii::is_whitespace(k));
                }
            } else if(n == "cmp") {
                Exact p(*c[a]), q(*c[b]);
                auto t = c[b]->view().template string<A2>();
                r = {*c[a] == t,   *c[a] == q.v(), p.v() == t,   p.v() == q.v(),
                     *c[a] < t,    p.v() < q.v(),  t < *c[a],    q.v() < p.v(),
                     hash(*c[a]) == hash(p.v()),   hash(*c[a]) == hash(t), hash(q.v()) == hash(t)};
            } else if(n == "drop") {
                c[a].off();
            } else {
                fprintf(stderr, "unknown op %s\n", n.c_str());
                _exit(98);
            }
            Ev h;
            h.head(op, "ok");
            if(!e.first) h.s += "," + e.s.substr(1);
            h.nums("r", r);
            state(h);
            if(n == "end") h.num("blocks", g_blocks);
            emit(h);
        }
    }
};
} // namespace

int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) { (new Run)->go(sc); });
}
