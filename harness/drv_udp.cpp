// The UDP server and client sockets, between plain sockets on the loopback.
// Everything runs in one thread: the library's coroutines run when told to.
#include "lineio.hpp"
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_rtmp_module.hpp>
#include "sps_tables.hpp"
#include <sps_io_socket.hpp>
#include <sps_sys_st_io_udp.hpp>
#include <fcntl.h>
extern "C" {
#include <public.h>
}
using namespace sps;

static st_utime_t now_us = 1000000000ULL;
static st_utime_t test_clock() { return now_us; }
static void settle() { for (int i = 0; i < 25; ++i) st_usleep(0); }

struct Plain { int fd = -1; std::string ip; int port = 0; };
static std::map<std::string, Plain> plain;      // the sockets of peers and targets
static std::shared_ptr<StUdpServerSocket> server;
static int sport;

static sockaddr_in addr(const std::string& ip, int port) {
    sockaddr_in a; memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr(ip.c_str()); a.sin_port = htons(port);
    return a;
}
static Plain open_plain(const std::string& ip, int port) {
    Plain p; p.ip = ip;
    p.fd = socket(AF_INET, SOCK_DGRAM, 0);
    fcntl(p.fd, F_SETFL, O_NONBLOCK);
    int big = 4 << 20; setsockopt(p.fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof(big));
    sockaddr_in a = addr(ip, port);
    if (bind(p.fd, (sockaddr*) &a, sizeof(a)) < 0) { close(p.fd); p.fd = -1; return p; }
    socklen_t l = sizeof(a); getsockname(p.fd, (sockaddr*) &a, &l);
    p.port = ntohs(a.sin_port);
    return p;
}
// two sockets with different addresses and the same port, one with another port
static void layout(const char* a, const char* b, const char* c) {
    for (auto n : {a, b, c}) if (plain.count(n)) { close(plain[n].fd); plain.erase(n); }
    while (true) {
        Plain x = open_plain("127.0.0.1", 0), z = open_plain("127.0.0.2", x.port);
        if (z.fd < 0) { close(x.fd); continue; }
        plain[a] = x; plain[b] = open_plain("127.0.0.1", 0); plain[c] = z;
        return;
    }
}
static std::string who(const std::string& ip, int port) {
    for (auto& p : plain) if (p.second.ip == ip && p.second.port == port) return p.first;
    return ip + ":" + std::to_string(port);
}

// a blocking call of the library in a coroutine of its own
struct Wait { st_thread_t t; std::string res = "pending"; std::function<std::string()> f; bool done = false; };
static std::map<std::string, std::shared_ptr<Wait>> waits;
static void* waiter(void* p) {
    auto w = *(std::shared_ptr<Wait>*) p; delete (std::shared_ptr<Wait>*) p;
    w->res = w->f(); w->f = nullptr; w->done = true;
    return nullptr;
}
static void start(const std::string& k, std::function<std::string()> f) {
    auto w = std::make_shared<Wait>(); w->f = f; waits[k] = w;
    w->t = st_thread_create(waiter, new std::shared_ptr<Wait>(w), 0, 256 * 1024);
    settle();
}

static std::map<std::string, PSocket> handle;
static std::map<std::string, PUdpFd> cfd;
static std::map<std::string, std::shared_ptr<StUdpClientSocket>> client;

static std::string accept_one(const std::string& h) {
    PSocket s = server->accept();
    handle[h] = s;
    return who(s->get_peer_ip(), s->get_peer_port()) + " " + s->get_self_ip() + " " + (s->get_self_port() == sport ? "port" : std::to_string(s->get_self_port()));
}
static std::string code(error_t r) {
    return r == ERROR_SOCKET_TIMEOUT ? "late" : r == ERROR_SOCKET_BUFFER_SMALL ? "small" : r == ERROR_SOCKET_READ ? "err" : "err" + std::to_string(r);
}
static std::string read_one(IReader& s, size_t size) {
    Block b(std::string(size, 0)); size_t n = 0;
    error_t r = s.read(b.p, size, n);
    return r == SUCCESS ? hex(b.p, n) : code(r);
}
static std::string read_from(StUdpClientSocket& s, size_t size) {
    Block b(std::string(size, 0)); size_t n = 0; std::string ip = "?"; int port = 0;
    error_t r = s.read(b.p, size, n, ip, port);
    return r == SUCCESS ? hex(b.p, n) + " " + who(ip, port) : code(r);
}
// what arrived at the plain sockets
static std::string inbox() {
    std::string out; static uint8_t buf[70000];
    for (auto& p : plain) while (true) {
        sockaddr_in f; socklen_t l = sizeof(f);
        int n = recvfrom(p.second.fd, buf, sizeof(buf), 0, (sockaddr*) &f, &l);
        if (n < 0) break;
        std::string from = "?";
        if (ntohs(f.sin_port) == sport) from = "server";
        for (auto& c : cfd) {
            sockaddr_in a; socklen_t al = sizeof(a); getsockname(st_netfd_fileno(c.second->get_fd()), (sockaddr*) &a, &al);
            if (a.sin_port == f.sin_port) from = "client" + c.first;
        }
        out += p.first + "<" + from + " " + hex(buf, n) + ";";
    }
    return out.empty() ? "nothing" : out;
}
static std::string cmd(const Args& a) {
    const std::string& c = a[0];
    auto N = [&](int i) { return strtoll(a[i].c_str(), nullptr, 10); };
    if (c == "reset") {
        for (auto& w : waits) if (!w.second->done && w.first[0] != '*') st_thread_interrupt(w.second->t);
        settle();
        if (server && waits.count("*") && !waits["*"]->done) {
            Plain p = open_plain("127.0.0.1", 0);
            sockaddr_in d = addr("127.0.0.1", sport); uint8_t x = 0;
            sendto(p.fd, &x, 1, 0, (sockaddr*) &d, sizeof(d)); settle(); close(p.fd);
        }
        waits.clear();
        if (server) { settle(); while (!server->new_clients.empty()) server->accept(); }
        handle.clear(); client.clear(); cfd.clear();
        settle();
        layout("A", "B", "C"); layout("X", "Y", "Z");
        return "ok";
    }
    if (c == "server") {
        if (server) return "ok";
        // the port is this process's own as long as it holds the guard
        int g;
        for (sport = 20000 + getpid() % 9000; ; ++sport) {
            g = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in d = addr("127.0.0.9", sport);
            if (bind(g, (sockaddr*) &d, sizeof(d)) == 0) {
                server = std::make_shared<StUdpServerSocket>();
                if (server->listen("", sport, false, 100) == SUCCESS) break;
            }
            close(g);
            if (sport > 32000) return "no port";
        }
        settle();
        return "ok";
    }
    if (c == "send") {
        sockaddr_in d = addr(a[2], sport); std::string s = unhex(a[3]);
        return sendto(plain[a[1]].fd, s.data(), s.size(), 0, (sockaddr*) &d, sizeof(d)) == (int) s.size() ? "ok" : "failed";
    }
    if (c == "flood") {     // numbered datagrams of 4 bytes
        sockaddr_in d = addr(a[2], sport);
        for (uint32_t i = N(3), e = N(3) + N(4); i < e; ++i) {
            uint32_t v = htonl(i);
            sendto(plain[a[1]].fd, &v, 4, 0, (sockaddr*) &d, sizeof(d));
            if (i % 16 == 0) settle();
        }
        settle();
        return "ok";
    }
    if (c == "run") { settle(); return "ok"; }
    if (c == "adv") { now_us += N(1) * 1000; settle(); return "ok"; }
    if (c == "acc") return server->new_clients.empty() ? "nobody" : accept_one(a[1]);
    if (c == "accw") { std::string h = a[1]; start("*", [h] { return accept_one("*"); }); return "ok"; }
    if (c == "name") { handle[a[2]] = handle[a[1]]; handle.erase(a[1]); return "ok"; }
    if (c == "res") return waits.count(a[1]) ? waits[a[1]]->res : "none";
    if (c == "rd") { handle[a[1]]->set_recv_timeout(0); return read_one(*handle[a[1]], N(2)); }
    if (c == "rdw") {
        PSocket s = handle[a[1]]; size_t n = N(2); s->set_recv_timeout(N(3) < 0 ? ST_UTIME_NO_TIMEOUT : N(3) * 1000);
        start(a[1], [s, n] { return read_one(*s, n); });
        return "ok";
    }
    if (c == "many") {
        std::string out; handle[a[1]]->set_recv_timeout(0);
        uint32_t from = 0, last = 0; bool any = false;
        for (int i = 0; i < N(2); ++i) {
            uint8_t b[64]; size_t n = 0;
            if (handle[a[1]]->read(b, sizeof(b), n) != SUCCESS) { out += " end"; break; }
            uint32_t v; if (n != 4) { out += " other"; break; } memcpy(&v, b, 4); v = ntohl(v);
            if (any && v == last + 1) { last = v; continue; }
            if (any) out += " " + std::to_string(from) + "-" + std::to_string(last);
            from = last = v; any = true;
        }
        if (any) out += " " + std::to_string(from) + "-" + std::to_string(last);
        return "got" + out;
    }
    if (c == "w") { Block b(unhex(a[2])); return handle[a[1]]->write(b.p, b.n) == SUCCESS ? "ok" : "failed"; }
    if (c == "close") { handle.erase(a[1]); return "ok"; }
    if (c == "in") return inbox();
    // --- clients
    if (c == "cnew") {
        Plain& t = plain[a[2]];
        PUdpFd fd; if (UdpFd::create_fd(fd) != SUCCESS) return "failed";
        auto s = std::make_shared<StUdpClientSocket>(t.ip, t.port, fd);
        cfd[a[1]] = fd; client[a[1]] = s;
        return a[3] == "0" || s->connect() == SUCCESS ? "ok" : "failed";
    }
    if (c == "cw") { Block b(unhex(a[2])); return client[a[1]]->write(b.p, b.n) == SUCCESS ? "ok" : "failed"; }
    if (c == "reply") {
        sockaddr_in d; socklen_t l = sizeof(d); getsockname(st_netfd_fileno(cfd[a[2]]->get_fd()), (sockaddr*) &d, &l);
        if (d.sin_addr.s_addr == INADDR_ANY) d.sin_addr.s_addr = inet_addr("127.0.0.1");
        std::string s = unhex(a[3]);
        bool sent = sendto(plain[a[1]].fd, s.data(), s.size(), 0, (sockaddr*) &d, sizeof(d)) == (int) s.size();
        settle();
        return sent ? "ok" : "failed";
    }
    if (c == "crd") { client[a[1]]->set_recv_timeout(0); return a[3] == "from" ? read_from(*client[a[1]], N(2)) : read_one(*client[a[1]], N(2)); }
    if (c == "crdw") {
        auto s = client[a[1]]; size_t n = N(2); s->set_recv_timeout(N(3) < 0 ? ST_UTIME_NO_TIMEOUT : N(3) * 1000);
        start("c" + a[1], [s, n] { return read_one(*s, n); });
        return "ok";
    }
    return "?";
}

int main() {
    st_set_utime_function(test_clock);
    st_init();
    line_loop(cmd);
}
