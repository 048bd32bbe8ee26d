// Transport stream demuxer and relay.
#include "lineio.hpp"
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_rtmp_module.hpp>
#include <sps_stream_cache.hpp>
#include "sps_tables.hpp"
#include "segreader.hpp"
using namespace sps;

static std::string show(PAVPacket& p) {
    char b[200];
    snprintf(b, sizeof(b), " %d,%d,%d,%d,%d,%lld,%lld,", p->msg_type, p->stream_type, p->pkt_type.pkt_type, p->codecid, p->flags, (long long) p->dts, (long long) p->pts);
    return b + hex(p->buffer(), p->size());
}

static std::string cmd(const Args& a) {
    std::string r;
    if (a[0] == "T") {      // a whole stream through a reader: T <segments> <hex>
        TsDemuxer d(std::make_shared<SegReader>(a[1], unhex(a[2])));
        int limit = 1 << 20;
        for (;;) {
            PAVPacket p;
            if (d.read_packet(p) != SUCCESS) break;
            if (!p) return "null packet";
            if (--limit == 0) return "endless";
            r += show(p);
        }
        PAVPacket p;     // an error is final, but must leave the object usable
        for (int i = 0; i < 3; ++i) d.read_packet(p);
        return "P" + r;
    }
    if (a[0] == "M") {      // from memory, chunk by chunk: M <hex> ...
        TsDemuxer d(nullptr);
        for (size_t i = 1; i < a.size(); ++i) {
            Block b(unhex(a[i]));
            error_t ret = d.decode_packet(b.p, b.n);
            PAVPacket p;
            while (d.pop(p)) r += show(p);
            if (ret != SUCCESS) break;
        }
        return "P" + r;
    }
    if (a[0] == "R" || a[0] == "G") {      // relay: R <packet hex>|j|d<k> ..., G shows what was demultiplexed too
        std::string url = "ts://h/s";
        auto cache = StreamCache::create_raw_streamcache(url);
        auto h = std::make_shared<TsCache>(cache);
        TsDemuxer d(nullptr, h);
        std::vector<PAVDumpCacheStream> cs;
        for (size_t i = 1; i < a.size(); ++i) {
            if (a[i] == "j") { cs.push_back(StreamCache::get_client_streamcache(url, 1000)); continue; }
            if (a[i][0] == 'd') {
                auto& c = cs[atoi(a[i].c_str() + 1)];
                std::list<PAVPacket> l;
                if (c->size() > 0) c->dump(l, false);
                r += " d";
                for (auto& p : l) r += ":" + hex(p->buffer(), p->size());
                continue;
            }
            Block b(unhex(a[i]));
            if (d.decode_packet(b.p, b.n) != SUCCESS) { r += " e"; break; }
            PAVPacket p;
            while (d.pop(p)) {
                if (a[0] == "G") r += " p" + show(p).substr(1);
            }
        }
        StreamCache::release_av_streamcache(url);
        return a[0] + r;
    }
    return "?";
}
int main() { line_loop(cmd); }
