// Bit reader/writer, byte reader/writer, memory reader, packet buffer.
#include "lineio.hpp"
#include <sps_io_bits.hpp>
#include <sps_io_bytes.hpp>
#include <sps_io_memory.hpp>
#include <sps_cache_buffer.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_rtmp_module.hpp>
#include "sps_tables.hpp"
#include "segreader.hpp"
#include <sps_io_socket.hpp>
#include <sps_sys_st_io_ssl.hpp>
#include <sps_sys_st_io_srt.hpp>
using namespace sps;

// connections whose bytes come from a script
struct Script : IReaderWriter {
    SegReader r;
    error_t read(void* b, size_t n, size_t& nr) override { return r.read(b, n, nr); }
    error_t read_fully(void* b, size_t n, ssize_t* nr) override { return r.read_fully(b, n, nr); }
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t write(void*, size_t) override { return SUCCESS; }
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
};
struct Tls : StSSLSocket {
    SegReader r;
    Tls() : StSSLSocket(nullptr, SSL_SERVER, SSLConfig(), nullptr) {}
    error_t read(void* b, size_t n, size_t& nr) override { return r.read(b, n, nr); }
};
struct Srt : StSrtSocket {
    SegReader r;
    Srt() : StSrtSocket(-1) {}
    error_t read(void* b, size_t n, size_t& nr) override { return r.read(b, n, nr); }
};
static std::shared_ptr<IReader> conn;
static bool counts;

static std::unique_ptr<Block> blk;
static BitContext bc;
static std::unique_ptr<BytesReader> rd;
static std::shared_ptr<AVBuffer> abuf;
static PBytesWriter wr;
static std::shared_ptr<CharBuffer> cb;
static MemoryReaderWriter mem;

static std::string num(uint64_t v) { char b[32]; snprintf(b, sizeof(b), "%llx", (unsigned long long) v); return b; }
static const char* ok(error_t r) { return r == SUCCESS ? "ok" : "err"; }

static std::string cmd(const Args& a) {
    const std::string& c = a[0];
    auto N = [&](int i) { return (size_t) strtoull(a[i].c_str(), nullptr, 10); };
    // --- bits
    if (c == "B") { blk.reset(new Block(unhex(a[1]))); bc.init(blk->p, blk->n); return "ok"; }
    if (c == "i") { bc.init(blk->p, blk->n); return "ok"; }
    if (c == "r") return num(bc.read_bits(N(1)));
    if (c == "r8") return num(bc.read_int8());
    if (c == "r16") return num(bc.read_int16());
    if (c == "r24") return num(bc.read_int24());
    if (c == "r32") return num(bc.read_int32());
    if (c == "R") { Block b(std::string(N(1), 0)); bc.read_bytes(b.p, b.n); return hex(b.p, b.n); }
    if (c == "s") { bc.skip_read_bytes(N(1)); return "ok"; }
    if (c == "q") return num(bc.size_bits()) + " " + num(bc.size()) + " " + num(bc.pos() - blk->p);
    if (c == "a") return ok(bc.acquire(N(1)));
    if (c == "ab") return ok(bc.acquire_bits(N(1)));
    if (c == "w") { bc.write_bits(strtoull(a[1].c_str(), nullptr, 16), N(2)); return "ok"; }
    if (c == "w8") { bc.write_int8(strtoull(a[1].c_str(), nullptr, 16)); return "ok"; }
    if (c == "w16") { bc.write_int16(strtoull(a[1].c_str(), nullptr, 16)); return "ok"; }
    if (c == "w24") { bc.write_int24(strtoull(a[1].c_str(), nullptr, 16)); return "ok"; }
    if (c == "w32") { bc.write_int32(strtoull(a[1].c_str(), nullptr, 16)); return "ok"; }
    if (c == "W") { Block b(unhex(a[1])); bc.write_bytes(b.p, b.n); return "ok"; }
    if (c == "S") { bc.skip_write_bytes(N(1)); return "ok"; }
    if (c == "d") return hex(blk->p, blk->n);
    // --- byte reader
    if (c == "Y") {
        auto src = std::make_shared<SegReader>();
        std::istringstream is(a[3]); std::string t;
        while (std::getline(is, t, ',')) src->segs.push_back(strtoul(t.c_str(), nullptr, 10));
        src->data = unhex(a[4]);
        abuf = std::make_shared<AVBuffer>(N(1), a[2] == "1");
        rd.reset(new BytesReader(src, abuf));
        return "ok";
    }
    if (c == "Yc") { blk.reset(new Block(unhex(a[1]))); rd = BytesReader::create_reader(blk->p, blk->n); return "ok"; }
    if (c == "ya") return ok(rd->acquire(N(1)));
    if (c == "yb") { Block b(std::string(N(1), 0)); rd->read_bytes(b.p, b.n); return hex(b.p, b.n); }
    if (c == "yv") { Block b(std::string(N(1), 0)); rd->read_reverse_bytes(b.p + b.n - 1, b.n); return hex(b.p, b.n); }
    if (c == "y1") return num(rd->read_int8());
    if (c == "y2") return num(rd->read_int16());
    if (c == "y3") return num(rd->read_int24());
    if (c == "y4") return num(rd->read_int32());
    if (c == "ys") { rd->skip_bytes(N(1)); return "ok"; }
    if (c == "yp") return hex(rd->pos(), N(1));
    if (c == "yz") return num(rd->size());
    // --- byte writer
    if (c == "V") { blk.reset(new Block(unhex(a[1]))); wr = BytesWriter::create_writer(blk->p, blk->n); return "ok"; }
    if (c == "va") return ok(wr->acquire(N(1)));
    if (c == "v1") { wr->write_int8(strtoul(a[1].c_str(), nullptr, 16)); return "ok"; }
    if (c == "v2") { wr->write_int16(strtoul(a[1].c_str(), nullptr, 16)); return "ok"; }
    if (c == "v3") { wr->write_int24(strtoul(a[1].c_str(), nullptr, 16)); return "ok"; }
    if (c == "v4") { wr->write_int32(strtoul(a[1].c_str(), nullptr, 16)); return "ok"; }
    if (c == "vb") { Block b(unhex(a[1])); wr->write_bytes(b.p, b.n); return "ok"; }
    if (c == "vs") { wr->skip(N(1)); return "ok"; }
    // --- packet buffer
    if (c == "C") { cb = std::make_shared<CharBuffer>((uint32_t) N(1), (uint32_t) N(2)); return "ok"; }
    if (c == "Cd") { Block b(unhex(a[1])); cb = CharBuffer::deep_copy(b.p, b.n, N(2)); return "ok"; }
    if (c == "ca") { Block b(unhex(a[1])); cb->append(b.p, b.n); return "ok"; }
    if (c == "cs") { memset(cb->pos(), 'Z', N(1)); cb->skip(N(1)); return "ok"; }
    if (c == "cz") return num(cb->size()) + " " + num(cb->remain()) + " " + num(cb->cap()) + " " + num(cb->head_size());
    if (c == "cd") return hex(cb->buffer(), cb->size());
    if (c == "ch") { if (cb->head_pos()) memset(cb->head_pos(), 'H', cb->head_size()); return "ok"; }
    // --- memory reader
    if (c == "M") { blk.reset(new Block(unhex(a[1]))); mem = MemoryReaderWriter((char*) blk->p, blk->n); return "ok"; }
    if (c == "mr") { Block b(std::string(N(1), 0)); size_t n = 0; error_t r = mem.read(b.p, b.n, n); return r == SUCCESS ? hex(b.p, n) : "err"; }
    if (c == "mf") { Block b(std::string(N(1), 0)); ssize_t n = 0; error_t r = mem.read_fully(b.p, b.n, &n); return r == SUCCESS ? hex(b.p, n) : "err"; }
    if (c == "ml") { std::string l; error_t r = mem.read_line(l); return r == SUCCESS ? "l" + hex(l) + " " + num(mem.cur_line_num()) : "err"; }
    if (c == "mw") { Block b(unhex(a[1])); return ok(mem.write(b.p, b.n)); }
    // --- connections
    if (c == "K") {
        SegReader sr(a[2], unhex(a[3]));
        counts = a[1] != "tcp";
        if (a[1] == "tcp") { auto x = std::make_shared<Script>(); x->r = sr; conn = std::make_shared<Socket>(x, "", 0); }
        else if (a[1] == "tls") { auto x = std::make_shared<Tls>(); x->r = sr; conn = x; }
        else { auto x = std::make_shared<Srt>(); x->r = sr; conn = x; }
        return "ok";
    }
    if (c == "kf") {
        Block b(std::string(N(1), 0)); ssize_t n = 0; error_t r = conn->read_fully(b.p, b.n, counts ? &n : nullptr);
        if (r != SUCCESS && !counts) return "err";
        return std::string(r == SUCCESS ? "" : "err ") + hex(b.p, counts ? n : b.n);
    }
    if (c == "kr") { Block b(std::string(N(1), 0)); size_t n = 0; error_t r = conn->read(b.p, b.n, n); return r == SUCCESS ? hex(b.p, n) : "err"; }
    return "?";
}

int main() { line_loop(cmd); }
