// Conformance driver for UDP sockets (C21), on the loopback interface.
#include "common.h"
#include <arpa/inet.h>
#include <linux/sock_diag.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <rpp/net.h>
using namespace rpp;
using namespace drv;

namespace {
u8 stream(long s, u64 i) {
    if(i == 0) return (u8)s; // one byte tells them apart
    u64 x = (i + 1) * 0x9E3779B97F4A7C15ull * (u64)(s + 3);
    x ^= x >> 29;
    return (u8)(x * 0xBF58476D1CE4E5B9ull >> 56);
}
std::string identify(const u8* p, u64 n) {
    if(!n) return "[0,0]";
    for(long s = 1; s <= 60; s++) {
        u64 i = 0;
        while(i < n && p[i] == stream(s, i)) i++;
        if(i == n) return "[" + std::to_string(s) + "," + std::to_string(n) + "]";
    }
    return "[-1," + std::to_string(n) + "]";
}
sockaddr_in make(u32 host, u16 port) {
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(host);
    a.sin_port = htons(port);
    return a;
}
bool is_socket(int fd) {
    int type;
    socklen_t n = sizeof type;
    return getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &n) == 0;
}
constexpr u32 lo = 0x7f000000;
u16 base_port = 0;
bool ports_free(u16 from) {
    bool ok = true;
    for(u16 p = 0; p < 8 && ok; p++) {
        int s = socket(AF_INET, SOCK_DGRAM, 0);
        sockaddr_in a = make(INADDR_ANY, (u16)(from + p));
        ok = ::bind(s, (sockaddr*)&a, sizeof a) == 0;
        close(s);
    }
    return ok;
}
struct Run {
    Net::Udp* u[6] = {};
    Opt<Net::Udp::Data> last[6];
    int x = -1; // the foreign sender
    u16 xport = 0;
    static int sockets() {
        int n = 0;
        for(int i = 0; i < 64; i++) n += is_socket(i);
        return n;
    }
    int base = 0;
    static Net::Address address(const Op& op) {
        long h = op.get("h");
        u16 port = (u16)(base_port + op.get("p"));
        if(h == 0) return Net::Address{port};
        // exactly as long as the text
        const char* t = h == 1 ? "127.0.0.1" : "127.0.0.2";
        u8* b = (u8*)malloc(9);
        memcpy(b, t, 9);
        Net::Address r{String_View{b, 9}, port};
        ::free(b);
        return r;
    }
    // bytes and packets waiting anywhere, or dropped
    static u64 arrived() {
        u64 n = 0;
        for(int i = 0; i < 64; i++) {
            u32 m[SK_MEMINFO_VARS] = {};
            socklen_t len = sizeof m;
            if(is_socket(i) && getsockopt(i, SOL_SOCKET, SO_MEMINFO, m, &len) == 0) n += m[SK_MEMINFO_RMEM_ALLOC] + 1000003ull * m[SK_MEMINFO_DROPS];
        }
        return n;
    }
    // whether somebody is bound there
    static bool anybody(u32 host, u16 port) {
        for(int i = 0; i < 64; i++) {
            sockaddr_in a;
            socklen_t n = sizeof a;
            if(is_socket(i) && getsockname(i, (sockaddr*)&a, &n) == 0 && ntohs(a.sin_port) == port &&
               (a.sin_addr.s_addr == 0 || ntohl(a.sin_addr.s_addr) == host))
                return true;
        }
        return false;
    }
    // what was sent is on its way for a moment only
    static void settle(u64 before, bool expected) {
        for(int i = 0; i < (expected ? 2000 : 3) && arrived() == before; i++) usleep(i < 100 ? 20 : 500);
    }
    static Net::Packet* packet(const Op& op) {
        auto* p = new Net::Packet;
        for(u64 i = 0; i < 1472; i++) (*p)[i] = stream(op.get("s"), i);
        return p;
    }
    void go(const Script& sc) {
        base_port = (u16)(2000 + getpid() % 3700 * 8);
        while(!ports_free(base_port)) base_port = (u16)(base_port + 8 < 31900 ? base_port + 8 : 2000);
        x = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0);
        sockaddr_in a = make(lo + 1, 0);
        if(::bind(x, (sockaddr*)&a, sizeof a)) _exit(91);
        socklen_t an = sizeof a;
        getsockname(x, (sockaddr*)&a, &an);
        xport = ntohs(a.sin_port);
        base = sockets();
        for(size_t k = 0; k < sc.size(); k++) {
            const Op& op = sc[k];
            begin_op((long)k);
            const std::string& n = op.name;
            Ev e;
            e.head(op, "ok");
            long i = op.get("i"), j = op.get("j");
            if(n == "new") {
                u[i] = new Net::Udp;
                last[i] = Opt<Net::Udp::Data>{};
            } else if(n == "del") {
                delete u[i];
                u[i] = nullptr;
                last[i] = Opt<Net::Udp::Data>{};
            } else if(n == "movenew") {
                u[i] = new Net::Udp{rpp::move(*u[j])};
                last[i] = rpp::move(last[j]);
                last[j] = Opt<Net::Udp::Data>{};
            } else if(n == "move") {
                *u[i] = rpp::move(*u[j]);
                if(i != j) {
                    last[i] = rpp::move(last[j]);
                    last[j] = Opt<Net::Udp::Data>{};
                }
            } else if(n == "bind") {
                u[i]->bind(address(op));
            } else if(n == "send" || n == "reply") {
                auto* p = packet(op);
                u64 before = arrived(), r;
                if(n == "send") {
                    r = u[i]->send(address(op), *p, (u64)op.get("n"));
                    settle(before, anybody(lo + (u32)op.get("h"), (u16)(base_port + op.get("p"))));
                } else {
                    r = u[i]->send(last[i]->from, *p, (u64)op.get("n"));
                    settle(before, false);
                    // most replies arrive, whoever they go to
                    for(int w = 0; w < 400 && arrived() == before; w++) usleep(20);
                }
                e.num("ret", (long)r);
                delete p;
            } else if(n == "recv") {
                auto* p = new Net::Packet;
                memset(p->data(), 0xAB, 1472);
                auto r = u[i]->recv(*p);
                e.boolean("ok", r.ok());
                e.num("len", r.ok() ? (long)r->length : 0);
                e.raw("c", r.ok() ? identify(p->data(), r->length < 1472 ? r->length : 1472) : "[0,0]");
                if(r.ok()) last[i] = rpp::move(r);
                delete p;
            } else if(n == "xsend") {
                std::vector<u8> d((size_t)op.get("n"));
                for(size_t b = 0; b < d.size(); b++) d[b] = stream(op.get("s"), b);
                u32 h = lo + (u32)op.get("h");
                u16 port = (u16)(base_port + op.get("p"));
                sockaddr_in to = make(h, port);
                u64 before = arrived();
                if(sendto(x, d.data(), d.size(), 0, (sockaddr*)&to, sizeof to) != (ssize_t)d.size()) _exit(92);
                settle(before, anybody(h, port));
            } else if(n == "xrecv") {
                std::vector<u8> d(70000);
                ssize_t r = ::recv(x, d.data(), d.size(), 0);
                e.boolean("ok", r >= 0);
                e.raw("c", identify(d.data(), r < 0 ? 0 : (u64)r));
            } else if(n == "badaddr") {
                const char* t[] = {"", "127.0.0", "127.0.0.1.", "256.0.0.1", "localhost", "127.0.0.1 ", "::1", "127,0,0,1", " 127.0.0.1", "127.0.0.1:80"};
                const char* s = t[op.get("n")];
                Net::Address b{String_View{(const u8*)s, strlen(s)}, 80};
            } else if(n == "end") {
                for(auto*& v : u) {
                    delete v;
                    v = nullptr;
                }
            }
            e.num("fds", sockets() - base);
            emit(e);
        }
        close(x);
    }
};
} // namespace
int main(int argc, char** argv) {
    return drive(argc, argv, [](const Script& sc) { (new Run)->go(sc); });
}
