// FLV demuxer and muxer.
#include "lineio.hpp"
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_rtmp_module.hpp>
#include "sps_tables.hpp"
#include "segreader.hpp"
using namespace sps;

class StrWriter : public IWriter {
 public:
    std::string out;
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
    error_t write(void* b, size_t n) override { out.append((char*) b, n); return SUCCESS; }
};

static std::string show(PAVPacket& p) {
    char b[200];
    snprintf(b, sizeof(b), "%d,%lld,%lld,%d,%d,%d,", p->stream_type, (long long) p->dts, (long long) p->pts, p->flags, p->pkt_type.pkt_type, p->codecid);
    return b + hex(p->buffer(), p->size());
}

static std::string cmd(const Args& a) {
    if (a[0] == "FD" || a[0] == "FR") {      // demux / demux and mux again
        FlvDemuxer d(std::make_shared<SegReader>(a[1], unhex(a[2])));
        auto w = std::make_shared<StrWriter>();
        FlvAVMuxer m(w);
        PAVPacket h;
        std::string r;
        if (d.read_header(h) != SUCCESS) return "H";
        m.write_header(h);
        int limit = 1 << 20;
        for (;;) {
            PAVPacket p;
            if (d.read_packet(p) != SUCCESS) break;
            if (!p) return "null packet";
            if (--limit == 0) return "endless";
            if (a[0] == "FD") r += (r.empty() ? "" : " ") + show(p);
            else if (m.write_packet(p) != SUCCESS) return "mux error";
        }
        // an error is final for the caller, but must leave the object usable
        PAVPacket p;
        for (int i = 0; i < 3; ++i) d.read_packet(p);
        return a[0] == "FD" ? "P " + r : hex(w->out);
    }
    if (a[0] == "FM") {      // mux packets: type,dts,pts,flags,ptype,codec,hex
        auto w = std::make_shared<StrWriter>();
        FlvAVMuxer m(w);
        PAVPacket none;
        if (m.write_header(none) != SUCCESS) return "err";
        for (size_t i = 1; i < a.size(); ++i) {
            std::vector<std::string> f; std::istringstream is(a[i]); std::string t;
            while (std::getline(is, t, ',')) f.push_back(t);
            Block b(unhex(f[6]));
            auto p = AVPacket::create(AV_MESSAGE_DATA, (AVStreamType) atoi(f[0].c_str()), AVPacketType{atoi(f[4].c_str())}, b.p, b.n,
                                      atoll(f[1].c_str()), atoll(f[2].c_str()), atoi(f[3].c_str()), atoi(f[5].c_str()));
            if (m.write_packet(p) != SUCCESS) return "err";
        }
        return hex(w->out);
    }
    return "?";
}
int main() { line_loop(cmd); }
