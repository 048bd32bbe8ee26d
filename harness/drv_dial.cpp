// Connections made by the library, and what is read and written over them.  The
// peers are elsewhere.  One thread: coroutines run, and time passes, when told to.
#include "lineio.hpp"
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_rtmp_module.hpp>
#include "sps_tables.hpp"
#include <sps_io_socket.hpp>
#include <dirent.h>
#include <signal.h>
extern "C" {
#include <public.h>
}
using namespace sps;

static st_utime_t now_us = 1000000000ULL;
static st_utime_t test_clock() { return now_us; }
static void settle() { for (int i = 0; i < 25; ++i) st_usleep(0); }

// a blocking call of the library in a coroutine of its own
struct Wait { st_thread_t t; std::string res = "pending"; std::function<std::string()> f; bool done = false; };
static std::map<std::string, std::shared_ptr<Wait>> waits;
static void* waiter(void* p) {
    auto w = *(std::shared_ptr<Wait>*) p; delete (std::shared_ptr<Wait>*) p;
    w->res = w->f(); w->f = nullptr; w->done = true;
    return nullptr;
}
static std::string start(const std::string& k, std::function<std::string()> f) {
    auto w = std::make_shared<Wait>(); w->f = f; waits[k] = w;
    w->t = st_thread_create(waiter, new std::shared_ptr<Wait>(w), 0, 1 << 20);
    settle();
    return w->res;
}
static std::map<std::string, PSocket> conn;
static std::string code(error_t r) {
    return r == ERROR_SOCKET_TIMEOUT || r == ERROR_SRT_SOCKET_TIMEOUT ? "late" : "end";
}
static utime_t limit(long long ms) { return ms < 0 ? ST_UTIME_NO_TIMEOUT : ms * 1000; }

static std::string cmd(const Args& a) {
    const std::string& c = a[0];
    auto N = [&](int i) { return strtoll(a[i].c_str(), nullptr, 10); };
    if (c == "reset") {
        for (auto& w : waits) if (!w.second->done) st_thread_interrupt(w.second->t);
        settle();
        waits.clear(); conn.clear();
        settle();
        return "ok";
    }
    if (c == "dial") {      // name transport host port limit
        Transport t = a[2] == "tcp" ? Transport::TCP : a[2] == "tls" ? Transport::HTTPS : Transport::SRT;
        std::string n = a[1], host = a[3]; int port = N(4); utime_t tm = limit(N(5));
        return start("d" + n, [n, t, host, port, tm]() -> std::string {
            PSocket s = SingleInstance<ClientSocketFactory>::get_instance().create_ss(t, host, port, tm);
            if (!s) return "failed";
            conn[n] = s;
            return "up " + s->get_peer_ip() + " " + std::to_string(s->get_peer_port());
        });
    }
    if (c == "res") { settle(); return waits.count(a[1]) ? waits[a[1]]->res : "none"; }
    // SRT has threads of its own: up to so many real milliseconds until it is done (10 ms of the clock each half)
    if (c == "until") {
        auto w = waits[a[1]];
        for (int i = 0; i < 2 * N(2) && !w->done; ++i) { now_us += 10000; settle(); if (!w->done) usleep(500); }
        return w->res;
    }
    if (c == "run") { for (int i = 0; i < N(1); ++i) { now_us += 10000; settle(); usleep(500); } return "ok"; }
    if (c == "adv") { now_us += N(1) * 1000; settle(); return "ok"; }
    if (c == "read") {      // name size limit key
        PSocket s = conn[a[1]]; size_t n = N(2); utime_t tm = limit(N(3));
        return start("r" + a[1], [s, n, tm]() -> std::string {
            Block b(std::string(n, 0)); size_t got = 0;
            s->set_recv_timeout(tm);
            error_t r = s->read(b.p, n, got);
            return r != SUCCESS ? code(r) : got > n ? "more than asked for" : hex(b.p, got);
        });
    }
    if (c == "fully") {
        PSocket s = conn[a[1]]; size_t n = N(2); utime_t tm = limit(N(3)); bool io = a[4] == "io";
        return start("r" + a[1], [s, n, tm, io]() -> std::string {
            Block b(std::string(n, 0)); ssize_t got = 0;
            s->set_recv_timeout(tm);
            error_t r = io ? s->get_io()->read_fully(b.p, n, &got) : s->read_fully(b.p, n, &got);
            return r == SUCCESS ? hex(b.p, n) : code(r);
        });
    }
    if (c == "write" || c == "pour") {
        PSocket s = conn[a[1]]; utime_t tm = limit(N(3)); std::string d;
        if (c == "write") d = unhex(a[2]); else { d.resize(N(2)); for (size_t i = 0; i < d.size(); ++i) d[i] = (char) (i * 7 % 251); }
        auto b = std::make_shared<Block>(d);
        return start("w" + a[1], [s, b, tm]() -> std::string {
            s->set_send_timeout(tm);
            error_t r = s->write(b->p, b->n);
            return r == SUCCESS ? "ok" : code(r);
        });
    }
    if (c == "close") { waits.erase("d" + a[1]); waits.erase("r" + a[1]); waits.erase("w" + a[1]); conn.erase(a[1]); settle(); return "ok"; }
    if (c == "fds") {
        int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d);
        return std::to_string(n);
    }
    return "?";
}

int main() {
    signal(SIGPIPE, SIG_IGN);
    st_set_utime_function(test_clock);
    st_init();
    line_loop(cmd);
}
