// HTTP heads, bodies, responses and URLs.  (Compiled with -fno-access-control.)
#include "lineio.hpp"
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_http_parser.hpp>
#include <sps_http_socket.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_rtmp_module.hpp>
#include "sps_tables.hpp"
#include "segreader.hpp"
using namespace sps;

// reads segments, keeps what is written
class SegRW : public IReaderWriter {
 public:
    SegReader r; std::string out; int nwrites = 0;
    SegRW(const std::string& s, const std::string& d) : r(s, d) {}
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
    error_t read(void* b, size_t n, size_t& nr) override { return r.read(b, n, nr); }
    error_t read_fully(void* b, size_t n, ssize_t* nr) override { return r.read_fully(b, n, nr); }
    error_t write(void* b, size_t n) override { out.append((char*) b, n); ++nwrites; return SUCCESS; }
    bool seekable() override { return false; }
};

static std::string lst(const std::list<RequestHeader>& l) {
    std::string r;
    for (auto& h : l) r += (r.empty() ? "" : ",") + hex(h.key) + ":" + hex(h.value);
    return r.empty() ? "-" : r;
}
static std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> f; std::istringstream is(s); std::string t;
    while (std::getline(is, t, c)) f.push_back(t);
    return f;
}
static std::string url_fields(RequestUrl& q) {
    std::ostringstream o;
    o << hex(q.get_method()) << " " << hex(q.get_schema()) << " " << hex(q.get_host()) << " " << q.get_port() << " " << hex(q.get_path()) << " "
      << hex(q.get_params()) << " " << hex(q.get_url()) << " " << hex(q.get_ext()) << " " << lst(q.pp);
    return o.str();
}

static std::string cmd(const Args& a) {
    std::ostringstream o;
    if (a[0] == "HH") {      // HH q|r segs data
        auto rd = std::make_shared<SegRW>(a[2], unhex(a[3]));
        HttpParser p;
        int ret = p.parse_header(rd, a[1] == "q" ? HttpType::REQUEST : HttpType::RESPONSE);
        if (ret < 0) return "F " + std::to_string(rd->r.pos);
        if (ret == 0) return "Z";
        if (a[1] == "q") {
            auto q = p.get_request();
            if (!q) return "null";
            o << "M " << rd->r.pos << " " << url_fields(*q) << " " << hex(p.get_ctx()->url) << " " << q->get_content_length() << " " << q->is_chunked() << " " << lst(q->headers);
        } else {
            auto s = p.get_response();
            if (!s) return "null";
            o << "M " << rd->r.pos << " " << s->status_code << " " << s->content_length << " " << s->chunked << " " << lst(s->headers);
        }
        return o.str();
    }
    if (a[0] == "HB") {      // HB q|r cl(-1: none) chunked segs readsizes data
        auto rw = std::make_shared<SegRW>(a[4], unhex(a[6]));
        long long cl = atoll(a[2].c_str());
        bool ch = a[3] == "1";
        PSocket s;
        std::function<bool()> eof;
        if (a[1] == "q") {
            auto x = std::make_shared<HttpRequestSocket>(rw, "h", 1, ch, cl);
            eof = [x] { return x->eof(); };
            s = x;
        } else {
            auto x = std::make_shared<HttpUrlProtocol>();
            x->rsp = std::make_shared<HttpResponse>();
            x->rsp->content_length = cl; x->rsp->chunked = ch; x->rsp->status_code = 200;
            x->init(rw, "h", 1, "", -1);
            eof = [x] { return x->eof(); };
            s = x;
        }
        auto sizes = split(a[5], ',');
        std::string body;
        int zeros = 0;
        for (size_t i = 0;; ++i) {
            size_t n = strtoul(sizes[i % sizes.size()].c_str(), nullptr, 10), nr = 0;
            uint8_t* b = (uint8_t*) malloc(n);
            error_t ret = s->read(b, n, nr);
            if (ret == SUCCESS && nr > n) { free(b); return "overrun"; }
            if (ret == SUCCESS) body.append((char*) b, nr);
            free(b);
            if (ret != SUCCESS) {
                size_t before = rw->r.pos;
                char c[8]; size_t k = 0;
                // a second read must not deliver more once the end has been reported
                error_t again = ret == ERROR_HTTP_RES_EOF ? s->read(c, 8, k) : ret;
                if (again != ret || rw->r.pos != before) return "end not final";
                o << (ret == ERROR_HTTP_RES_EOF ? "end" : ret == ERROR_IO_EOF ? "eof" : "error") << " " << rw->r.pos << " " << hex(body);
                return o.str();
            }
            if (nr == 0 && ++zeros > 3) return "endless";
        }
    }
    if (a[0] == "HR") {      // HR status cl chunked headers ops...   (ops: H or hex of a body write, "-" an empty one)
        auto rw = std::make_shared<SegRW>("", "");
        HttpResponseSocket s(rw, "h", 1);
        std::list<RequestHeader> hs;
        if (a[4] != "-") for (auto& h : split(a[4], ',')) { auto kv = split(h, ':'); hs.push_back(RequestHeader(unhex(kv[0]), unhex(kv[1]))); }
        s.init(atoi(a[1].c_str()), a[4] == "-" ? nullptr : &hs, atoll(a[2].c_str()), a[3] == "1");
        for (size_t i = 5; i < a.size(); ++i) {
            if (a[i] == "H") { if (s.write_header() != SUCCESS) return "err"; continue; }
            Block b(unhex(a[i]));
            if (s.write(b.p, b.n) != SUCCESS) return "err";
        }
        return hex(rw->out);
    }
    if (a[0] == "U") {       // U url
        PRequestUrl q;
        if (RequestUrl::from(unhex(a[1]), q) != SUCCESS) return "F";
        return "M " + url_fields(*q);
    }
    if (a[0] == "UL") {      // UL url key...: parameter lookups
        PRequestUrl q;
        if (RequestUrl::from(unhex(a[1]), q) != SUCCESS) return "F";
        for (size_t i = 2; i < a.size(); ++i) o << (i > 2 ? " " : "") << hex(q->get_param(unhex(a[i])));
        return o.str();
    }
    if (a[0] == "HL") {      // HL headers key...: header lookups; then erase the first key and look again
        RequestUrl q;
        if (a[1] != "-") for (auto& h : split(a[1], ',')) { auto kv = split(h, ':'); q.headers.push_back(RequestHeader(unhex(kv[0]), unhex(kv[1]))); }
        for (size_t i = 2; i < a.size(); ++i) o << (i > 2 ? " " : "") << hex(q.get_header(unhex(a[i])));
        return o.str();
    }
    return "?";
}
int main() { line_loop(cmd); }
