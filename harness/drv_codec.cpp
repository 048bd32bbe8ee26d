// H.264 and AAC parsers: S <h264|aac> <op>:<dts>:<pts>:<timebase>:<hex> ...
#include "lineio.hpp"
#include <sps_avcodec_h264_parser.hpp>
#include <sps_avcodec_aac_parser.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_rtmp_module.hpp>
#include "sps_tables.hpp"
using namespace sps;

static std::string cmd(const Args& a) {
    auto h264 = std::make_shared<H264AVCodecParser>();
    auto aac = std::make_shared<AacAVCodecParser>();
    std::string r;
    for (size_t i = 2; i < a.size(); ++i) {
        std::vector<std::string> f; std::istringstream is(a[i]); std::string t;
        while (std::getline(is, t, ':')) f.push_back(t);
        AVCodecContext ctx(atoll(f[1].c_str()), atoll(f[2].c_str()), atoll(f[3].c_str()));
        std::list<PAVPacket> pkts;
        error_t ret;
        {
            Block b(unhex(f[4]));
            if (a[1] == "aac") ret = aac->encode_avc(&ctx, b.p, b.n, pkts);
            else if (f[0] == "raw") ret = h264->encode_raw_nalu(&ctx, b.p, b.n, pkts);
            else ret = h264->encode_avc(&ctx, b.p, b.n, pkts);
        }
        r += i > 2 ? " | " : "";
        if (ret != SUCCESS) { r += "F"; continue; }
        r += "P";
        for (auto& p : pkts) {
            char s[200];
            snprintf(s, sizeof(s), " %d,%d,%d,%d,%d,%lld,%lld,", p->msg_type, p->stream_type, p->pkt_type.pkt_type, p->codecid, p->flags, (long long) p->dts, (long long) p->pts);
            r += s + hex(p->buffer(), p->size());
        }
    }
    return r;
}
int main() { line_loop(cmd); return 0; }
