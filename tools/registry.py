"""property -> (module under checks/, function), and what MANIFEST.json says about it"""
CHECKS = {
    "F01": ("conf", "f01"),
    "H01": ("http", "h01"),
    "H02": ("http", "h02"),
    "H03": ("http", "h03"),
    "H04": ("proxy", "h04"),
    "H05": ("route", "h05"),
    "H06": ("http", "h06"),
    "H07": ("route", "h07"),
    "M01": ("flv", "m01"),
    "M02": ("flv", "m02"),
    "M03": ("ts", "m03"),
    "M04": ("codec", "m04"),
    "B01": ("io", "b01"),
    "B02": ("io", "b02"),
    "S01": ("streaming", "s01"),
    "S02": ("streaming", "s02"),
    "S03": ("streaming", "s03"),
    "S04": ("admit", "s04"),
    "S05": ("streaming", "s05"),
    "S06": ("streaming", "s06"),
    "S07": ("ts", "s07"),
    "S08": ("srtlive", "s08"),
    "S09": ("sync", "s09"),
    "N01": ("udp", "n01"),
    "N02": ("transport", "n02"),
    "M05": ("rtp", "m05"),
    "N03": ("hostile", "n03"),
    "N04": ("dial", "n04"),
    "B03": ("file", "b03"),
}
LIVE = ("TLA+ specification spec/Live.tla checked by TLC; every transition of its state graph (and seeded random long "
        "behaviours) replayed step by step on the real server over loopback, all observations of all connections compared")
LIVE_NOTE = ("exhaustive on the specification within the constants listed in the evidence; the implementation is compared on "
             "every generated behaviour with a virtual clock, packets concretised pseudo-randomly (size, timestamps, upload framing, segmentation)")
HTTPN = ("TLA+ byte-level specification (spec/%s) whose laws TLC checks on all small cases (%s); every one of those and generated and damaged inputs "
         "offered to the real code under sanitizers, each recorded run judged by the specification (HttpTrace, evaluated by TLC); corrupted records shown to be refused")
HTTPS = "exhaustive over the small constants, every truncation and byte change of sample inputs; larger inputs sampled; what the specification leaves open is counted in the evidence"
NOTES = {
    "N01": ("TLA+ specifications spec/Udp.tla (peers, the network, a server's sessions and accept queue, waiting reads) and spec/UdpClient.tla checked by TLC; every "
            "transition of the state graph and random long behaviours performed on the real sockets (ASan/UBSan build) between plain sockets on the loopback, "
            "every answer and every datagram that arrives anywhere compared",
            "exhaustive on the specification within the constants in the evidence; datagrams of up to 4096 bytes to a server, contents and sizes pseudo-random, virtual clock"),
    "N04": ("TLA+ specification spec/Dial.tla (connections over TCP, TLS and SRT to peers that accept, refuse, stay silent or break the handshake; reads and writes that wait; "
            "time) checked by TLC; every transition of the state graph and random long behaviours performed by the library's clients (ASan/UBSan build) against peers whose "
            "every byte is in the test's hands, all results, moments and bytes compared",
            "exhaustive on the specification for one connection per transport and two at once within the constants in the evidence (the quick tier performs a random part of those behaviours); contents, sizes and divisions pseudo-random, virtual clock (SRT's own threads: real time)"),
    "N03": ("TLA+ specification spec/Hostile.tla (hostile clients and upstreams, the connections and descriptors the server may hold for each, names taken, room for "
            "descriptors) checked by TLC; every transition and random long behaviours performed on the real server (ASan/UBSan build) beside an undisturbed "
            "publisher, player and requests, all of them compared after every act, with the descriptors held, the log and the memory allocated",
            "exhaustive on the specification for one to three hostile clients within the constants in the evidence; hostile bytes are drawn from classes; memory growth is judged over repeated behaviours"),
    "F01": ("TLA+ specification of configuration files (spec/Conf.tla, byte level) whose laws TLC checks on all small files; those files and generated and "
            "damaged ones loaded by the real loader under sanitizers, every load judged by the specification (ConfTrace, evaluated by TLC); corrupted records refused",
            "exhaustive over small files and over every truncation, line and byte change of a sample file; larger files sampled"),
    "H01": (HTTPN % ("HttpHead.tla", "rendering is inverted, every strict prefix is a failure, following bytes change nothing"), HTTPS),
    "H02": (HTTPN % ("HttpBody.tla", "de-framing inverts framing, every strict prefix is an error, following bytes stay unread"), HTTPS),
    "H03": (HTTPN % ("HttpResp.tla", "a reference rendering is valid and no other framing, header set or body is"), HTTPS),
    "H04": ("TLA+ specification spec/Proxy.tla (clients, queued requests, answers in pieces, failures) checked by TLC; every transition of its state graph and "
            "seeded random long behaviours performed on the real server between scripted clients and a scripted upstream, all sides compared after every step",
            "exhaustive on the specification within the constants in the evidence; methods, headers, bodies, chunking and segmentation concretised pseudo-randomly"),
    "H05": ("TLA+ specification spec/Route.tla (configurations grown block by block, best-match decision) checked by TLC; configurations it reaches "
            "are started on the real server and every kind of request is routed on every port, the deciding block identified by its upstream; configurations "
            "it rejects must not start", "exhaustive on the specification; configurations and requests replayed within the bounds in the evidence, larger ones sampled"),
    "H07": ("TLA+ specification spec/Upstream.tla (configurations of upstream blocks, hosts with blocks of their own, pass_proxy by address or name) checked by TLC; "
            "configurations it reaches are started on the real server and every host is asked, as a proxy or as an edge; which listening upstream was connected to is compared",
            "exhaustive on the specification for one and two hosts, two upstream blocks and three addresses; configurations replayed within the bounds in the evidence"),
    "H06": (HTTPN % ("Url.tla", "the parts a URL was put together from are recovered"), HTTPS),
    "S01": (LIVE, LIVE_NOTE), "S02": (LIVE, LIVE_NOTE), "S03": (LIVE, LIVE_NOTE), "S05": (LIVE, LIVE_NOTE), "S06": (LIVE, LIVE_NOTE),
    "S04": ("TLA+ specification spec/Admit.tla checked by TLC; all histories up to the bound, for every combination of role, "
            "format option and extension, replayed on the real server", "exhaustive over the listed roles, formats and extensions up to the history bound"),
    "B01": ("TLA+ specification spec/Bits.tla (cursor over a bit string) checked by TLC; every transition and random long operation "
            "sequences replayed on the real bit reader and writer under address and undefined-behaviour sanitizers",
            "exhaustive over operation widths and positions within the constants in the evidence; long sequences are sampled"),
    "B02": ("TLA+ specifications spec/Bytes.tla and spec/Buffers.tla checked by TLC; every transition and random long operation sequences "
            "replayed on the real buffered reader, buffers and memory reader under sanitizers",
            "exhaustive over small buffers, sources and segmentations; larger ones sampled"),
    "S09": ("TLA+ specifications spec/Sync.tla (streams, subscriptions, waiting coroutines, the clock) and spec/Co.tla (coroutines and what they "
            "run) checked by TLC; transitions and random long histories replayed on the real primitives under sanitizers",
            "exhaustive for up to 4 streams and 3 handlers within the constants in the evidence; 6 streams, 5 handlers and long histories sampled"),
    "B03": ("TLA+ specification spec/File.tla (a file's bytes and the handle through which it is read and written) checked by TLC; every "
            "transition and random long histories replayed on the real file handle under sanitizers, in a scratch directory",
            "exhaustive over small files, sizes and histories within the constants in the evidence; long histories sampled"),
    "M01": ("TLA+ byte-level specification of FLV (spec/FlvFmt.tla) with the round trip as an invariant checked by TLC; all generated packet "
            "sequences replayed on the real muxer and demuxer; recorded demuxer runs validated against the specification by TLC (FlvTrace)",
            "exhaustive over the listed field values for single packets and triples; long and wrapping files sampled"),
    "M02": ("TLA+ byte-level specification of the FLV demuxer (spec/FlvFmt.tla); runs of the real demuxer on damaged files recorded under "
            "sanitizers and validated one by one against the specification by TLC (FlvTrace), corrupted records shown to be rejected",
            "every truncation and single-byte change of a file, and sampled deeper damage"),
    "M03": ("TLA+ (Ts.tla) + TLC: behaviours of a multiplexer model (TsGen) replayed into the real TsDemuxer; recorded runs of the real demuxer judged by TsTrace",
            "byte-level specification of packets, sections (CRC-32), PES assembly and delivery; TLC enumerates every behaviour of a multiplexer with losses, repeats and foreign packets up to 5 (thorough 6-7) operations and checks that what was multiplexed is what the specified demultiplexer delivers; each behaviour and long random ones go through the real code; random well-formed streams with large access units, optional fields and stuffing and damaged streams are run under ASan/UBSan and judged by the specification. Open: PES headers cut by the first packet, sections over several packets, two streams of one kind, ISO fields nobody uses (stream ids without header)."),
    "M05": ("TLA+ (Rtp.tla) + TLC: behaviours of a sender model (RtpGen) with losses replayed into the real depacketisers; recorded runs judged by RtpTrace",
            "byte-level specification of RTP and RTCP headers, the H.264 and AAC payload formats and their reassembly; TLC enumerates every behaviour of a sender with single, aggregated and fragmented units, losses, aborted fragments, reports and junk within the constants in the evidence and checks that the receiver delivers exactly the units that arrived whole; each behaviour and long random ones go through the real code; random and damaged sessions (H.264, AAC, transport streams), headers and RTCP packets are run under ASan/UBSan, every datagram in a block of its own size, and judged by the specification. Open: interleaved (DON) reordering, and reordering by the network."),
    "S07": ("TLA+ (TsRelay.tla) + TLC: behaviours of a multiplexer with joiners (TsGen) replayed into the real relay; recorded runs judged by TsTrace",
            "TLC enumerates every behaviour of a multiplexer with up to 2 joiners up to 5 (thorough 6) operations; each, long random ones and random programmes with joins at every position go through the real TsDemuxer, TsCache and client caches; the packets each joiner drains are compared byte for byte."),
    "S08": ("TLA+ specification spec/Srt.tla (callers over SRT, names, tables, units, a publisher and a viewer over HTTP) checked by TLC; its transitions and random "
            "long behaviours performed with real SRT callers on the real server (ASan/UBSan build), every connection, every name and the number of sessions compared after every step",
            "exhaustive on the specification within the constants in the evidence; the behaviours replayed are a seeded selection in the quick tier; message sizes, stream ids and packets concretised pseudo-randomly; "
            "loss on the network is not modelled (the SRT library's task)"),
    "N02": ("TLA+ specification spec/Tls.tla (clients of an https server, each anywhere between its first byte and its requests, stalling, leaving or sending nonsense) checked "
            "by TLC, its transitions and random long behaviours performed on the real server (ASan/UBSan build) with real TLS clients; random behaviours of Live.tla and Proxy.tla over TLS and of Srt.tla with HTTP over SRT",
            "exhaustive on the specification for one to three clients within the constants in the evidence; TLS 1.2 (what the server speaks), with and without false start; where flights and records are cut is chosen pseudo-randomly; "
            "the cipher itself is OpenSSL's task"),
    "M04": ("TLA+ byte-level specifications of H.264 annex B and ADTS repackaging (spec/Annexb.tla, spec/Adts.tla) with conservation and configuration-is-current "
            "laws checked by TLC; all generated sessions replayed on the real parsers under sanitizers; recorded sessions (well-formed and damaged) judged by the "
            "specification (CodecTrace, evaluated by TLC), corrupted records shown to be refused",
            "exhaustive over a small alphabet of NAL units and ADTS frames; larger sessions, payloads and time stamps sampled"),
}
NOT_APPLICABLE = {}
