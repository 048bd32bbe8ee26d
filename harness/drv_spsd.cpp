// The real server (its own main(), modules, HTTP and FLV code) plus a control
// connection that gives the test a barrier and a controllable clock.
//
//   drv_spsd <conf> <control-port>
//
// control protocol (one line per command, one line per answer):
//   ping         run the scheduler until every connection had many turns
//   hold         stand still until the next command
//   adv <ms>     move the server's clock forward, then as ping
//   count        as ping, the answer is "count <coroutines>"
//   mem          as ping, the answer is "mem <bytes allocated>"
//   gap          stand still for up to a second the next time a SRT socket has
//                nothing to read, until that socket breaks
//   quit
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <arpa/inet.h>
#include <dlfcn.h>
#include <malloc.h>
#include <poll.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>

#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_io_url_protocol.hpp>
#include <sps_rtmp_module.hpp>

extern "C" {
#include <public.h>
}
#include <srtcore/srt.h>

// tables that the repository fills with classes that cannot be built here
#include "sps_tables.hpp"

extern "C" int _st_active_count;           // coroutines (State Threads)

int sps_app_main(int argc, char* argv[]);  // the repository's main()

// The server's clock stands still except when the test moves it, so that
// timing is exact and independent of the machine's load (SPS_REALTIME: runs).
static bool       realtime = getenv("SPS_REALTIME") != nullptr;
static st_utime_t clock_offset = 0;
static st_utime_t test_clock() {
    struct timespec ts = { 1000, 0 };
    if (realtime) clock_gettime(CLOCK_MONOTONIC, &ts);
    return (st_utime_t) ts.tv_sec * 1000000ULL + ts.tv_nsec / 1000 + clock_offset;
}

static int rounds = 25;

// the program's own calls of srt_recv come here first
static bool gap = false;
extern "C" int srt_recv(int fd, char* buf, int len) {
    typedef int (*recv_t)(int, char*, int);
    static recv_t real = (recv_t) dlsym(RTLD_NEXT, "srt_recv");
    int n = real(fd, buf, len);
    if (n < 0 && gap && srt_getlasterror(nullptr) / 1000 == MJ_AGAIN) {
        gap = false;
        for (int i = 0; i < 1000 && srt_getsockstate(fd) == SRTS_CONNECTED; ++i) usleep(1000);
    }
    return n;
}

static void settle() {
    for (int i = 0; i < rounds; ++i) st_usleep(0);
}

static void* control_conn(void* arg) {
    st_netfd_t fd = (st_netfd_t) arg;
    std::string in;
    char buf[512];
    for (;;) {
        ssize_t n = st_read(fd, buf, sizeof(buf), ST_UTIME_NO_TIMEOUT);
        if (n <= 0) break;
        in.append(buf, n);
        size_t p;
        while ((p = in.find('\n')) != std::string::npos) {
            std::string line = in.substr(0, p);
            in.erase(0, p + 1);
            if (line.compare(0, 4, "adv ") == 0) {
                clock_offset += (st_utime_t) atoll(line.c_str() + 4) * 1000ULL;
                settle();
            } else if (line.compare(0, 7, "rounds ") == 0) {
                rounds = atoi(line.c_str() + 7);
            } else if (line == "gap") {
                gap = true;
            } else if (line == "hold") {
                // nothing runs until the next command: everything the clients do
                // meanwhile is there at once when the server goes on
                st_write(fd, "ok\n", 3, ST_UTIME_NO_TIMEOUT);
                struct pollfd pf = { st_netfd_fileno(fd), POLLIN, 0 };
                poll(&pf, 1, -1);
                continue;
            } else if (line == "mem") {
                settle();
                char out[64];
                int n = snprintf(out, sizeof(out), "mem %zu\n", mallinfo2().uordblks);
                st_write(fd, out, n, ST_UTIME_NO_TIMEOUT);
                continue;
            } else if (line == "count") {
                settle();
                char out[64];
                int n = snprintf(out, sizeof(out), "count %d\n", _st_active_count);
                st_write(fd, out, n, ST_UTIME_NO_TIMEOUT);
                continue;
            } else if (line == "quit") {
                fflush(stdout);
                _exit(0);
            } else {
                settle();
            }
            st_write(fd, "ok\n", 3, ST_UTIME_NO_TIMEOUT);
        }
    }
    st_netfd_close(fd);
    return nullptr;
}

static void* control(void* arg) {
    st_netfd_t lfd = (st_netfd_t) arg;
    for (;;) {
        st_netfd_t c = st_accept(lfd, nullptr, nullptr, ST_UTIME_NO_TIMEOUT);
        if (!c) continue;
        int one = 1;
        setsockopt(st_netfd_fileno(c), IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
        st_thread_create(control_conn, c, 0, 0);
    }
    return nullptr;
}

int main(int argc, char* argv[]) {
    if (argc < 3) return 2;
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);

    st_set_utime_function(test_clock);
    if (st_init() != 0) return 2;

    int s = socket(AF_INET, SOCK_STREAM, 0);
    int one = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
    struct sockaddr_in a;
    memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(atoi(argv[2]));
    if (bind(s, (struct sockaddr*) &a, sizeof(a)) != 0 || listen(s, 16) != 0) {
        perror("control port");
        return 2;
    }
    st_thread_create(control, st_netfd_open_socket(s), 0, 0);

    char* av[] = { argv[0], argv[1], nullptr };
    int r = sps_app_main(2, av);
    fprintf(stderr, "server main returned %d\n", r);
    return 3;
}
