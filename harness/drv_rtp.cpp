// RTP depacketisers and RTCP decoders.
#include "lineio.hpp"
#include <deque>
#include <sps_avcodec_parser.hpp>
#include <sps_avformat_rtpdec.hpp>
#include <sps_avformat_rtpdec_aac.hpp>
#include <sps_avformat_rtpdec_h264_hevc.hpp>
#include <sps_avformat_rtpdec_rtcp.hpp>
#include <sps_avformat_rtpdec_ts.hpp>
using namespace sps;

// one datagram per read, like a socket: what does not fit is gone
class Datagrams : public IReader {
 public:
    std::deque<std::string> q;
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read(void* buf, size_t size, size_t& nr) override {
        nr = 0;
        if (q.empty()) return ERROR_SOCKET_TIMEOUT;
        nr = std::min(size, q.front().size());
        memcpy(buf, q.front().data(), nr);
        q.pop_front();
        return SUCCESS;
    }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_SOCKET_TIMEOUT; }
    error_t read_line(std::string&) override { return ERROR_SOCKET_TIMEOUT; }
};

static std::string show(PAVPacket& p) {
    char b[200];
    snprintf(b, sizeof(b), " %d,%d,%d,%d,%d,%lld,%lld,", p->msg_type, p->stream_type, p->pkt_type.pkt_type, p->codecid, p->flags, (long long) p->dts, (long long) p->pts);
    return b + hex(p->buffer(), p->size());
}
static std::string u32(uint32_t x) { return " " + std::to_string(x); }

class Probe : public IRtpDecoder {
 public:
    std::string r;
    bool match(int) override { return true; }
    error_t decode(RtpPayloadHeader& h, BitContext& bc, std::list<PAVPacket>&) override {
        auto& f = h.fix_header;
        r += u32(f.mark) + u32(f.payload_type) + u32(f.sequence_num) + u32(f.timestamp) + u32(f.ssrc) + u32(h.csrc.size());
        for (auto c : h.csrc) r += u32(c);
        std::string e;
        if (f.extension) {
            uint8_t b[4] = { (uint8_t) (h.extension_info.define_by_profile >> 8), (uint8_t) h.extension_info.define_by_profile, 0, 0 };
            b[2] = h.extension_info.length >> 8; b[3] = h.extension_info.length;
            e.assign((char*) b, 4);
            // whatever length counts, the extension is made of words
            if (h.extension_info.length) e.append((char*) h.extension_info.header_extension.get(), h.extension_info.length * 4);
        }
        r += " " + hex(e) + " " + hex(bc.pos(), bc.size());
        return SUCCESS;
    }
};

static std::string blocks(std::list<RtcpSRReportBlock>& l) {
    std::string r = u32(l.size());
    for (auto& b : l)
        r += u32(b.ssrc) + u32(b.fraction_lost) + u32(b.cum_number_pkt_lost) + u32(b.extend_high_seq_num_recv) + u32(b.inter_arrival_jitter) + u32(b.last_sr) + u32(b.delay_since_last_sr);
    return r;
}

static std::string cmd(const Args& a) {
    std::string r;
    if (a[0] == "P") {      // P <codec> <datagram> ...
        auto in = std::make_shared<Datagrams>();
        RtpDemuxer d(in);
        if (a[1] == "h264" && d.init_codec(AVCODEC_H264) != SUCCESS) return "no codec";
        if (a[1] == "aac" && d.init_codec(AVCODEC_AAC) != SUCCESS) return "no codec";
        for (size_t i = 2; i < a.size(); ++i) {
            in->q.push_back(unhex(a[i]));
            std::string o;
            int err = 0, limit = 100000;
            for (;;) {
                PAVPacket p;
                error_t e = d.read_packet(p);
                if (--limit == 0) return "endless";
                if (e == SUCCESS) {
                    if (!p) return "null packet";
                    o += show(p);
                } else if (e == ERROR_SOCKET_TIMEOUT && in->q.empty()) {
                    break;
                } else {
                    ++err;
                }
            }
            r += " |" + std::to_string(err) + o;
        }
        return "P" + r;
    }
    if (a[0] == "E") {      // the same without the reader: every datagram in a block of its size
        PIRtpDecoder d;
        if (a[1] == "h264") d = std::make_shared<H264RtpDecoder>();
        else if (a[1] == "aac") d = std::make_shared<AacRtpDecoder>();
        else d = std::make_shared<MpegtsRtpDecodder>();
        PIRtpDecoder rtcp = std::make_shared<RtcpRtpDecoder>();
        for (size_t i = 2; i < a.size(); ++i) {
            Block b(unhex(a[i]));
            std::list<PAVPacket> l;
            error_t e = (b.n > 1 && is_rtcp(b.p[1]) ? rtcp : d)->decode(b.p, b.n, l);
            r += " |" + std::to_string(e != SUCCESS);
            for (auto& p : l) r += show(p);
        }
        return "P" + r;
    }
    if (a[0] == "H") {
        Block b(unhex(a[1]));
        Probe p;
        std::list<PAVPacket> l;
        error_t e = static_cast<IRtpDecoder&>(p).decode(b.p, b.n, l);
        return e == SUCCESS ? "H" + p.r : "refused";
    }
    if (a[0] == "C") {
        Block b(unhex(a[1]));
        BitContext bc(b.p, b.n);
        RtcpHeadDecoder h;
        if (h.decode(bc) != SUCCESS) return "refused";
        int pt = h.header.payload_type;
        r = u32(pt);
        if (pt == RTP_SR) {
            RtcpSRDecoder d;
            if (d.decode(h.header, bc) != SUCCESS) return "refused";
            d.debug();
            return "C" + r + u32(d.ssrc) + u32(d.ntp_ts_msw) + u32(d.ntp_ts_lsw) + u32(d.rtp_ts) + u32(d.send_pkt_count) + u32(d.send_oct_count) + blocks(d.report_blocks);
        }
        if (pt == RTP_RR) {
            RtcpRRDecoder d;
            if (d.decode(h.header, bc) != SUCCESS) return "refused";
            d.debug();
            return "C" + r + u32(d.ssrc) + blocks(d.report_blocks);
        }
        if (pt == RTP_SDES) {
            RtcpSDESDecoder d;
            if (d.decode(h.header, bc) != SUCCESS) return "refused";
            d.debug();
            r += u32(d.sdes.size());
            for (auto& s : d.sdes) {
                r += u32(s.ssrc) + u32(s.items.size());
                for (auto& i : s.items) r += u32(i.item_type) + " " + hex(i.item_value->buffer(), i.item_value->size());
            }
            return "C" + r;
        }
        if (pt == RTP_BYE) { RtcpByteDecoder d; return d.decode(h.header, bc) == SUCCESS ? "C" + r : "refused"; }
        if (pt == RTP_APP) { RtcpAppDecoder d; return d.decode(h.header, bc) == SUCCESS ? "C" + r : "refused"; }
        return "refused";
    }
    return "?";
}
int main() { line_loop(cmd); }
