"""Source of properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state, observe_at, hook=False):
    assert len(title) <= 80, (id, len(title))
    PL = {"history": "histories", "schedule": "schedules", "input": "inputs", "crash_point": "crash_points",
          "configuration": "configurations", "fault": "fault_sequences"}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": [PL[o] for o in over], "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism],
                          "state": [{"name": state, "meaning": state, "where": files[0]}],
                          "observe_at": [observe_at], "hook_needed": None}})

prop("S01", "Every player gets each live packet exactly once, in order, unmodified",
 "After it has joined a live stream, a player receives every audio, video and metadata packet the publisher sends from then on, exactly once, in publishing order, with the same kind, timestamps, codec flags and payload bytes. This holds however many players share the stream and however joining, leaving, slow reading and publishing interleave, and a packet of one stream never reaches a player of another.",
 ["history", "schedule", "input"], "all interleavings of publish, join, read, leave over any number of players and streams",
 "unit tests put a handful of packets through one subscriber in one order; loss, duplication or reordering needs particular interleavings of several subscribers",
 ["src/cache/sps_cache.hpp", "src/avformat/sps_avformat_cache.cpp", "src/sys/sps_sys_sync.hpp", "src/module/stream/sps_stream.cpp", "src/module/stream/sps_stream_handler.cpp", "src/module/stream/sps_stream_cache.hpp"],
 ["publisher puts a packet in the stream's cache, which hands it to every subscriber's queue and wakes it", "subscriber drains its queue and muxes"],
 "per stream: subscriber set; per subscriber: pending queue", "bytes received on a player's connection; packets drained from a subscriber queue")

prop("S02", "A joining player starts with current headers and the latest GOP, without gap",
 "The first packets a player gets on joining are the most recent metadata, audio configuration and video configuration packets published so far (those that exist, in that order), followed by every packet from the most recent video keyframe up to now in publishing order; before any keyframe has been published only the headers are given. The live packets follow directly, with none missing and none repeated at the seam, and nothing older than that keyframe or superseded is sent.",
 ["history", "schedule"], "all publish histories before the join, and all join points",
 "a test fixes one packet sequence and one join point; stale headers, a GOP not reset or a gap at the seam shows only for particular histories",
 ["src/avformat/sps_avformat_cache.cpp", "src/module/stream/sps_stream_cache.hpp", "src/avformat/sps_avformat_packet.cpp"],
 ["GOP cache keeps last script, audio and video sequence header and packets since the last keyframe", "subscription and snapshot are one atomic step"],
 "per stream: last headers, GOP list", "first packets drained by a new subscriber / first FLV tags on a player's connection")

prop("S03", "A stream has one publisher at a time, and its name is free once it ends",
 "While a stream is being published, a second publisher of the same host and path (whatever the format extension or query string) is turned away and disconnected, and neither the first publisher nor any player notices. When a publisher ends, in whatever way, its name becomes free at once: new players find no stream until somebody publishes again, a new publisher is accepted and its players see only its packets, and publishers of other names are never affected.",
 ["history", "schedule", "crash_point"], "all histories of publish attempts, disconnects, aborted or malformed uploads and joins over several stream names",
 "needs histories with overlapping publishers and abnormal ends at every point; tests contain no publisher at all",
 ["src/module/stream/sps_stream_handler.cpp", "src/module/stream/sps_stream_cache.hpp", "src/module/srt/sps_srt_stream_handler.cpp", "src/module/stream/sps_stream.cpp"],
 ["publish looks the key up, refuses when present, registers the cache, removes it when the upload ends"],
 "map from stream name to cache", "responses and closes seen by publishers and players over HTTP")

prop("S04", "Publishing and playing are admitted exactly as the host is configured",
 "On a streaming host an upload is accepted exactly when the host's role is source and its permitted format is all or equals the request's extension; otherwise it is answered 403. A play request for a stream that does not exist is answered 404 when the host is not an edge, an existing stream is answered 200 followed by a valid FLV stream, and an extension for which there is no muxer or demuxer never yields a stream and never registers one.",
 ["input", "configuration"], "all host roles, permitted formats, methods, extensions and stream states",
 "a matrix of configurations, methods and stream states that no test starts a server for",
 ["src/module/stream/sps_stream_handler.cpp", "src/module/host/sps_host_module.cpp", "src/module/http/sps_http_stream_phase_handler.cpp", "src/module/http/sps_http_adapter_phase_handler.cpp"],
 ["role and format checks before the cache is touched", "error codes mapped to HTTP status"],
 "host configuration, stream map", "HTTP status line and body seen by clients")

prop("S05", "An edge pulls each stream once and gives all waiting players the same outcome",
 "However many players ask an edge host for a stream that is not there, at most one upstream connection for that stream is open at a time, to the configured upstream and with the original path and query. When the upstream answers 200 every player waiting for it, and every later one, is served from that single pull as if the upstream were the publisher; when it refuses, breaks off or does not answer within 10 seconds the waiting players get 404; and when a pull has ended the next player starts a new one.",
 ["schedule", "history", "fault"], "all interleavings of player arrivals with upstream accept, answer, refusal, data, close and silence",
 "needs an upstream whose timing is controlled relative to several player arrivals",
 ["src/module/stream/sps_stream_edge.cpp", "src/module/stream/sps_stream_handler.cpp", "src/io/url/sps_io_url_http.cpp", "src/module/host/sps_host_module.cpp"],
 ["one pull task per stream name in a manager; later players wait on its condition", "task releases cache and registration when it ends"],
 "per stream: pull state, waiting players", "requests seen by a scripted upstream, responses seen by players")

prop("S06", "A slow, stalled or vanished player affects nobody else; idle players are closed",
 "A player that stops reading, disconnects or resets at any moment does not delay, lose or alter what the publisher and the other players see. A player whose stream delivers nothing for 10 seconds is disconnected and not earlier, and disconnecting it leaves the stream and the other players intact.",
 ["schedule", "fault"], "all points at which a player may stall, reset or time out",
 "needs full socket buffers, resets and timeouts at chosen points with several players attached",
 ["src/module/stream/sps_stream.cpp", "src/module/stream/sps_stream_handler.cpp", "src/cache/sps_cache.hpp", "src/sys/sps_sys_sync.hpp", "src/avformat/sps_avformat_cache.cpp"],
 ["one queue and one coroutine per player; bounded wait for data"],
 "per player: queue, wait deadline", "other players' received bytes, publisher progress, close times under a controlled clock")

prop("S07", "Transport-stream relay: joiners get PAT, PMT and data from the last unit start",
 "A stream relayed as raw MPEG-TS packets consists of the packets with a payload that belong to the tables (PAT, PMT, SDT) or to the H.264, H.265 and AAC streams they announce. A joining player gets the latest PAT, the latest PMT and then every packet of the stream since the most recent payload-unit start of an announced stream, and afterwards every packet exactly once, in order and byte for byte. The packets kept for joiners never reach back beyond the most recent payload-unit start.",
 ["history", "input"], "all sequences of TS packets (tables, unit starts, continuations) and all join points",
 "the classification of a packet depends on header bits a test would have to vary, and growth shows only over long histories",
 ["src/avformat/sps_avformat_cache.cpp", "src/avformat/sps_avformat_packet.cpp", "src/avformat/sps_avformat_ts.cpp", "src/module/srt/sps_srt_stream_handler.cpp"],
 ["TS packets tagged with program type and unit-start bit; cache clears on unit start"],
 "per stream: pat, pmt, packets since unit start", "packets drained by a new subscriber and total kept")

prop("S08", "SRT: the stream id decides who publishes and plays; players get the stream whole",
 "A caller over SRT whose stream id (#!::key=value,...; keys in any order, h= with or without srt://) names a configured host publishes with m=publish and plays with m=request; a stream id that is too short or names no host, publishing on a host that is not a source, publishing a name somebody (also over HTTP) publishes, and playing a name nobody publishes over SRT end the connection and change nothing for anybody else. A player gets the current PAT and PMT and every packet since the last unit start, then every packet of the announced streams and tables, whole, in order and once, including those the publisher sent right before it closed; a viewer of the same name over HTTP gets the units as FLV. When the publisher closes (at whatever moment) or sends something that is no transport stream, its session ends and its name is free again; players without packets for 10 seconds are let go, and no session outlives its connection for longer than that.",
 ["history", "schedule"], "all histories of SRT callers, an HTTP publisher and an HTTP viewer, and all moments at which a publisher closes",
 "no test runs the server; what is lost when a peer closes depends on the moment between a read and the wait that follows it",
 ["src/module/srt/sps_srt_server_handler.cpp", "src/module/srt/sps_srt_stream_handler.cpp", "src/sys/st/io/sps_sys_st_io_srt.cpp", "src/avformat/sps_avformat_ts.cpp", "src/avformat/sps_avformat_cache.cpp"],
 ["stream id parsed into host, path and method", "one publisher per name in the stream cache shared with HTTP", "SRT readiness turned into wake-ups of coroutines; an error must not hide what was received"],
 "per name: publisher, tables, packets since unit start; per caller: role", "packets each caller receives, connections, who can publish or play each name, sessions alive")

prop("N01", "UDP: sessions keep peers apart",
 "A UDP server gives each peer (its address, its port and the server's address it sends to) one session, accepted once, whose reads return exactly the datagrams of that peer, whole (up to 4096 bytes), each once and in order, waiting for the next one as long as they are told to; at most 4000 unread ones are kept, later ones are dropped. A buffer too small for a datagram is an error that leaves it there. What is written to a session arrives at its peer as one datagram and nowhere else; when a session ends, its peer's next datagram opens a new one and nobody else notices. What a UDP client writes arrives at the peer it was made for only, and it reads what is sent to it, with the sender's address - a connected one only what its peer sends.",
 ["history"], "all histories of datagrams, accepts, reads, writes and session ends, for any number of peers and server addresses",
 "the tests use one peer; mixing peers up, and old sessions with new ones, takes histories with several",
 ["src/sys/st/io/sps_sys_st_io_udp.cpp", "src/io/sps_io_socket.cpp"],
 ["sessions kept by client address and server address", "queue of datagrams and a condition per session", "weak references end with the session"],
 "per session: peer, unread datagrams, waiting reader; sessions not yet accepted", "peer of each accepted session, datagrams read and received by peers, time-outs")

prop("N02", "TLS and SRT carry requests, answers and streams exactly as TCP does",
 "A server with transport https shows a client the certificate of the host it names, if that host has one, and else its own; a client it has no certificate for is disconnected. Handshakes and records may arrive in any pieces and at any pace. A client that stalls at any point, leaves, or sends what is not TLS affects nobody else: others' handshakes, requests and streams go on, and its connection is released. Once a client has finished its part of the handshake everything it sends counts, also what it sends at once, and requests, uploads, answers, proxied exchanges and streams are byte for byte what they are over TCP, slow readers and disconnections included; the same holds for HTTP over a server with transport srt, where what is answered before a disconnection still arrives. Every client is logged with its own address.",
 ["history", "schedule", "input"], "all interleavings of clients' handshakes and requests, all divisions of what they send",
 "the tests open no connection; what one connection leaves behind for another shows only in interleavings",
 ["src/sys/st/io/sps_sys_st_io_ssl.cpp", "src/sys/st/io/sps_sys_st_io_srt.cpp", "src/module/server/sps_server.cpp", "src/module/host/sps_host_module.cpp"],
 ["certificates chosen by server name while the hello is read", "handshakes run beside each other, finished ones queue for accept", "bytes pass through memory buffers between the cipher and the socket"],
 "per client: how far its handshake and its request are", "certificate shown, answers, streams, disconnections, connections held, log")

prop("N04", "A connection to another server is made, used and given up as its limits say",
 "Connecting over TCP, TLS or SRT yields a connection exactly when the peer accepts it (over TLS: completes its handshake) before it has been silent for the given time; otherwise it yields none, as soon as the peer has refused, broken the handshake or left, or when that time has passed, and keeps nothing open. Over a connection reads return the peer's bytes in order and each once, however they were divided on the way and whatever sizes are asked for, including those sent right behind the handshake; a read that waits gets what comes first, reports the time-out when the peer has been silent for its limit without losing anything of what comes later, and reports the end when the peer has left and all was read. What is written arrives whole, in order and once, however slowly the peer reads; a write the peer does not take within its limit reports the time-out. Reading and writing at once, and other connections, do not disturb each other; what was written before closing arrives, followed by the end.",
 ["history", "schedule", "fault"], "all histories of connects, handshake flights in pieces, refusals and silences, reads, writes, time-outs and ends over several connections",
 "the tests open no connection; limits, half records and peers that stop at one point of a handshake need a peer that is controlled step by step",
 ["src/io/sps_io_socket.cpp", "src/sys/st/io/sps_sys_st_io_tcp.cpp", "src/sys/st/io/sps_sys_st_io_ssl.cpp", "src/sys/st/io/sps_sys_st_io_srt.cpp"],
 ["sockets wait in coroutines with a time limit", "the TLS handshake as alternating reads and writes on memory buffers", "SRT events turned into wake-ups"],
 "per connection: how far it is, unread bytes, waiting read and write with their limits", "results of connect, read and write and when they come; bytes at the peer; descriptors held")

prop("H01", "An HTTP head is parsed the same however it is split; nothing beyond it is read",
 "Parsing a request or response head gives the same method, target, host, headers, status and framing fields for every way the bytes are divided among reads, and consumes exactly the bytes up to and including its blank line. A head larger than 2048 bytes, a connection that ends inside the head, and a head that is not HTTP are reported as failures, never as a message, without hanging or touching memory outside the buffer.",
 ["input", "schedule"], "all heads and all segmentations of the byte stream",
 "a test feeds whole heads; over-reading or under-reading depends on the position of CR and LF relative to read sizes",
 ["src/module/http/sps_http_parser.cpp", "src/module/http/sps_http_parser.hpp"],
 ["reads 4, 3, 2 or 1 bytes depending on the trailing CR/LF so as never to pass the blank line"],
 "bytes buffered, trailing CR/LF state", "parser result and number of bytes taken from the reader")

prop("H02", "HTTP bodies are de-framed exactly, for every framing, split and read size",
 "Reading a request or response body returns exactly the body's bytes and then end-of-body, under Content-Length, chunked coding (any chunk sizes) or neither, for any read sizes and any division of the stream into segments, and leaves the bytes that follow the body unread. Malformed chunk framing or a premature close is reported as an error, never as a complete body; under Content-Length everything that came before a premature close is delivered first. (Trailer fields are not promised.)",
 ["input", "schedule"], "all body contents, framings, chunk layouts, segmentations and read sizes",
 "combinations of chunk boundary, read size and segment boundary are unbounded",
 ["src/module/http/sps_http_socket.cpp", "src/io/url/sps_io_url_http.cpp"],
 ["remaining-length counters for Content-Length and chunk; chunk trailer check; end flag"],
 "bytes left in body/chunk, eof flag", "bytes and result codes returned by the body readers")

prop("H03", "HTTP responses are framed correctly for any status, headers and body writes",
 "A response written with any status, header list and sequence of body writes is one valid HTTP/1.1 message: the head is sent once, before any body byte, states exactly one framing (chunked, Content-Length or until close), carries every supplied header once (framing headers excepted), and a standard client decodes from it exactly the bytes written; an empty write ends a chunked body.",
 ["input", "history"], "all statuses, header lists, framings and sequences of writes (including empty ones)",
 "tests check one response text",
 ["src/module/http/sps_http_socket.cpp"],
 ["head emitted lazily on first write; chunk size line, data, CRLF per write"],
 "sent-header flag, framing mode", "bytes written to the connection, decoded by an independent HTTP decoder")

prop("H04", "The reverse proxy relays each exchange faithfully and keeps exchanges apart",
 "For a proxying host each client request reaches the configured upstream once, with the same method, path, query, host name, headers and body, and the client receives the upstream's status, headers and exactly its body bytes (none for answers that have none, interim answers passed on as such). Successive requests on one client connection are answered in order, each with its own upstream answer, and an upstream that is unreachable, answers garbage or breaks off mid-body is never turned into a complete successful answer.",
 ["input", "history", "fault"], "all upstream responses (status, framing, body size), request sequences and upstream failure points",
 "needs a scripted upstream with every framing and failure point",
 ["src/module/http/sps_http_proxy_phase_handler.cpp", "src/io/url/sps_io_url_http.cpp", "src/module/http/sps_http_socket.cpp", "src/module/server/sps_server_handler.cpp"],
 ["open upstream, copy status and headers, loop copying body, continue with next request"],
 "per connection: position in request/response sequence", "bytes seen by scripted upstream and client")

prop("H05", "Requests are routed to the host block that matches best",
 "A request is handled by the host block whose name equals the request's host; failing that by the wildcard block (*.suffix) that covers the host with exactly one more leading label; failing that by the default block (*); failing that it is answered 404. This holds for any set of host blocks, global or per server, in any order and on every listening port, and duplicate names are rejected at start.",
 ["configuration", "input"], "all sets and orders of host blocks and all request hosts",
 "a test can sample only a few tables",
 ["src/module/host/sps_host_module.cpp", "src/module/host/sps_host_router_handler.cpp", "src/module/server/sps_server_module.cpp", "src/module/http/sps_http_module.cpp", "src/module/host/sps_host_global_module.cpp"],
 ["exact map, wildcard map keyed by reversed suffix, default"],
 "router tables", "which block answers a request; registration result")

prop("H06", "URLs are decomposed into scheme, host, port, path, query and extension exactly",
 "For every well-formed URL of a network scheme the parser yields its scheme, host, port (explicit, or the scheme's default), path, query string, the list of query parameters in order with their values, the request target (path plus query) and the extension after the last dot of the path; a malformed URL is reported as an error. A parameter without '=' has an empty value. Looking up a header (in any case) or a parameter returns the first value given for it, and the empty string when absent.",
 ["input"], "all URLs over schemes, hosts, ports, paths, queries",
 "an unbounded input grammar of which tests take a few strings",
 ["src/io/url/sps_io_url.cpp", "src/io/url/sps_io_url.hpp"],
 ["http_parser URL split, parameter scan, extension split"],
 "fields of the parsed URL", "getters of the parsed URL")

prop("H07", "A host's requests and pulls go to the upstream its configuration names",
 "What a proxying or edge host forwards or pulls goes to exactly one upstream: the server of the host's own upstream block, failing that the server of the upstream block that its pass_proxy names, failing that the address in pass_proxy itself (host name or number, port 80 when none is given), wherever in the file these blocks stand and whether the host is global or a server's. A pass_proxy that names nothing reaches nobody and is never answered 200. No other upstream is ever connected to.",
 ["input", "configuration"], "all combinations of upstream blocks, own blocks, references and addresses over several hosts, in any order",
 "the repository only tests that upstream blocks are loaded",
 ["src/module/host/sps_host_module.cpp", "src/module/upstream/sps_upstream_module.cpp", "src/module/stream/sps_stream_edge.cpp", "src/module/http/sps_http_proxy_phase_handler.cpp"],
 ["get_proxy_info, registry of upstream blocks"],
 "upstream of each host", "which scripted upstream is connected to and asked")

prop("F01", "A configuration file means what it says: values, defaults, nesting, errors",
 "Every option takes exactly the value written for it in its own block and its documented default otherwise, for every combination, order and nesting of blocks, independent of indentation, blank lines and comments; hosts in a global block belong to every server. Unknown options are passed over. An unterminated line, an unclosed or extra block, an unknown block, a nameless host, a block without a closing brace or a value where a block is required makes loading fail rather than yield a partial configuration.",
 ["configuration", "input"], "all configuration texts of the grammar and their line-level corruptions",
 "the space of files is unbounded; a test loads one",
 ["src/module/sps_module.cpp", "src/module/sps_module_opt.cpp", "src/module/host/sps_host_module.hpp", "src/module/server/sps_server_module.hpp", "src/module/upstream/sps_upstream_module.hpp", "src/io/sps_io_memory.cpp", "src/io/url/sps_io_url_file.cpp"],
 ["line tokeniser with ; { } terminators, option table with defaults, recursive blocks"],
 "module tree with option values", "effective values after loading, load result")

prop("M01", "FLV muxing and demuxing round-trip every packet",
 "Muxing any sequence of audio, video and metadata packets with a non-empty payload and demuxing the result gives back the same packets: kind, decoding and presentation timestamps (all 32 bits, negative composition offsets included), codec and frame flags, packet type and payload bytes; and the bytes produced are a well-formed FLV file with correct tag sizes and back-pointers. Demuxing then muxing a well-formed FLV file reproduces it byte for byte, however the input is split among reads.",
 ["input", "schedule"], "all packet sequences (sizes, timestamps over the 24-bit boundary, flags) and segmentations",
 "field boundaries (24-bit timestamps, sizes, signs) form a large input space",
 ["src/avformat/sps_avformat_flvenc.cpp", "src/avformat/sps_avformat_flvdec.cpp", "src/io/sps_io_bytes.cpp", "src/cache/sps_cache_buffer.cpp"],
 ["tag header fields assembled/split byte by byte"],
 "previous tag size", "muxer output bytes and demuxer packets")

prop("M02", "Malformed FLV input is refused without harm",
 "For any byte sequence offered as FLV the demuxer delivers exactly the packets of its well-formed prefix and then reports an error or end of input: it never reads outside its buffer, never delivers a packet assembled from bytes of another tag, and never loops or crashes.",
 ["input", "fault"], "all byte strings: truncations and corruptions of any field at any place",
 "malformed inputs are unbounded and tests contain none",
 ["src/avformat/sps_avformat_flvdec.cpp", "src/io/sps_io_bytes.cpp"],
 ["size checks before each read from the buffered reader"],
 "reader position, bytes available", "packets and result code under address/undefined-behaviour sanitizers")

prop("M03", "The TS demuxer reassembles exactly the PES payloads of the announced streams",
 "Given 188-byte transport packets, cut into reads in any way and joined at any packet, the demuxer recognises the programme tables and delivers, for the H.264 and the AAC stream they announce, the access units of each PES packet once, complete, in order and with its DTS and PTS, when the next PES packet of the stream begins, whatever the interleaving of PIDs, the use of adaptation fields, optional PES fields and stuffing, the repetition of tables and of single packets. Packets of unannounced PIDs and padding are ignored. A lost packet costs the PES packet it belonged to and nothing else, unless the demuxer reports it as an error; other malformed packets or tables are reported, which ends the stream, or skipped, without altering what else is delivered and without reading outside the packet.",
 ["input", "history"], "all interleavings of table and stream packets, payload sizes, adaptation fields, and corruptions",
 "the demuxer is a state machine over packet histories; tests feed one file at most",
 ["src/avformat/sps_avformat_ts.cpp", "src/avformat/sps_avformat_ts.hpp", "src/avformat/sps_avformat_tsdec.cpp"],
 ["per-PID program objects, PES assembly buffer, PES header parse"],
 "PID table, per-PID assembly buffer", "packets delivered by the demuxer, under sanitizers")

prop("M04", "H.264 Annex-B and ADTS AAC are repackaged without losing or altering a byte",
 "Converting a sequence of H.264 access units delivers every slice, IDR slice and SEI exactly once, in order and unchanged, with a 4-byte length prefix and the time of its access unit, flagged key exactly when it is an IDR slice; zero bytes around start codes belong to nothing. Parameter sets are kept by their id, and when an access unit changes them (and both kinds are known) the decoder configuration holding all of them precedes that unit's frames; otherwise none is sent. Converting ADTS audio delivers every AAC frame without its header, with the time of its buffer plus the duration of the frames before it, and a configuration matching the header before the first frame and again whenever profile, rate or channels change. Truncated or corrupt input is refused without reading beyond it, delivers nothing and leaves what was learnt before in place.",
 ["input"], "all NAL sequences with 3- and 4-byte start codes, all ADTS frame sequences and their truncations",
 "byte-pattern dependent parsing with many boundary positions",
 ["src/avcodec/sps_avcodec_h264_parser.cpp", "src/avcodec/sps_avcodec_aac_parser.cpp", "src/avformat/sps_avformat_ts.cpp"],
 ["start-code scan, SPS/PPS capture, AVCC assembly", "ADTS fixed/variable header parse, frame split"],
 "last SPS/PPS, last ADTS header", "packets delivered, under sanitizers")

prop("M05", "RTP payloads are depacketised into exactly the sent units",
 "Fed the datagrams of an RTP session in sequence order, some of them possibly lost, the demuxer delivers for H.264 the NAL units of single, aggregated (STAP-A/B, MTAP16/24) and fragmented (FU-A/B) packets and for AAC the access units of each packet, once, unchanged and in the order sent, each with the time its RTP timestamp (and MTAP offset) says; a lost datagram costs the units it carried, or the one unit it carried a fragment of, and nothing else; a transport stream carried in RTP is demultiplexed as by itself. Header fields (sequence number, timestamp, SSRC, payload type, CSRC list, extension, padding) and RTCP sender and receiver reports, source descriptions, goodbyes and compound packets are decoded as the standard says. Truncated or inconsistent RTP or RTCP packets are refused without reading beyond them, deliver nothing but units that precede the damage, and do not disturb the packets after them.",
 ["input", "history"], "all packet sequences of the payload formats, with losses, truncations and corruptions",
 "the repository's RTP tests only wait for a UDP timeout",
 ["src/avformat/sps_avformat_rtp.cpp", "src/avformat/sps_avformat_rtpdec.cpp", "src/avformat/sps_avformat_rtpdec_h264_hevc.cpp", "src/avformat/sps_avformat_rtpdec_aac.cpp", "src/avformat/sps_avformat_rtpdec_rtcp.cpp"],
 ["fixed header parse, payload-type decoders, fragment reassembly buffer"],
 "pending fragmented unit", "units and result codes delivered, under sanitizers")

prop("B01", "Bit-level reads and writes are exact inverses at every position and width",
 "Reading n bits (1 to 64) returns the next n bits of the buffer, most significant first, for every width and bit position; writing n bits stores exactly the low n bits of the value there and changes no other bit; and reading back what any sequence of writes stored returns the same values. A request for more bits than the buffer holds is refused by acquire, and as long as acquire is respected no access goes outside the buffer.",
 ["input", "history"], "all sequences of operations, widths, values and positions",
 "tests sample a few widths at a few offsets",
 ["src/io/sps_io_bits.cpp", "src/io/sps_io_bits.hpp"],
 ["bit cursor within byte, mask tables"],
 "byte position, bit position", "values returned, buffer contents")

prop("B02", "The buffered byte reader returns the source's bytes in order, whatever the use",
 "Through any sequence of acquire, peek, read, skip and line-read operations, and through exact reads from plain, TLS and SRT connections, any segmentation of the source, and with or without rewinding, the values returned are the source's bytes in order, multi-byte integers are big-endian (or as requested), and no byte is lost, repeated or invented at buffer wrap-around; asking for more than the buffer can hold or the source has is reported as an error and loses nothing.",
 ["input", "history", "schedule"], "all operation sequences, buffer sizes, source segmentations",
 "wrap-around happens only for particular combinations of sizes",
 ["src/io/sps_io_bytes.cpp", "src/io/sps_io_bytes.hpp", "src/cache/sps_cache_buffer.hpp", "src/io/sps_io_memory.cpp"],
 ["read position and end position in a fixed buffer, rewinding when full"],
 "buffer contents, positions", "values and result codes returned")

prop("S09", "Events reach every subscriber once; coroutines wake, run and end as they should",
 "What is put into a stream of events is in it and in everything subscribed to it, directly or through others, once for every way there, in the order it was put, until it is taken out; what was cancelled gets nothing more, and a subscriber or a stream that is given up, cancelled or not, changes nothing for the others. A coroutine that waits on a stream is woken by the next event that reaches it, and by nothing else, or told so when its time has passed. A handler that is started runs exactly once, in the order of starting, unless it was given up before its turn; it lives at least until it has run, and no two running coroutines have the same id.",
 ["history", "schedule"], "all sequences of subscribing, cancelling, giving up, putting, waiting, starting and ending, and all orders of objects in memory",
 "errors need a particular order of giving up and cancelling, or a particular layout of memory",
 ["src/sys/sps_sys_sync.hpp", "src/cache/sps_cache.hpp", "src/sys/st/sps_sys_st_sync.hpp", "src/sys/st/sps_sys_st_co.cpp", "src/sys/sps_sys_co.cpp"],
 ["a set of weak pointers per publisher", "a condition per subscriber", "a coroutine per started handler"],
 "subscriptions, contents of streams, waiting coroutines, handlers", "contents of streams, results of waits, begins, ends and destructions of handlers")

prop("B03", "A file gives back exactly the bytes that were written, in order",
 "A file opened for reading gives its bytes in order whatever sizes are asked for; exact reads give all that was asked for or report the end; lines come without their newline and are counted from the opening, the last one also when no newline ends it; the end is reported only at the end, and reading never changes the file. What is written through a handle is in the file once it is closed or given up: a truncating handle leaves exactly what was written, an appending one what was there followed by what was written, any other replaces bytes from its position on; reading and writing may be mixed on one handle, and a handle may be opened again. A file that does not exist is not opened unless truncating or appending.",
 ["input", "history"], "all contents, sizes and sequences of opening, reading, writing and closing",
 "errors depend on where the end of the file, a line or a previous operation left the handle",
 ["src/io/url/sps_io_url_file.cpp", "src/io/url/sps_io_url_file.hpp"],
 ["one stream with a position, flags for its end and for failures"],
 "file contents, position of the handle, lines counted", "bytes, lines and result codes returned; contents of the file afterwards")

prop("N03", "Whatever one client sends, the server goes on serving everyone else",
 "No sequence of bytes, resets or half-closes sent by clients or upstreams on any connection crashes the server, wedges it or alters the exchange of another connection; each connection ends with its own resources released. Data supplied by clients is never interpreted (for instance as format directives) when it is logged.",
 ["input", "fault", "schedule"], "all client and upstream byte sequences, at every point of a connection's life",
 "hostile input is unbounded; tests only send well-formed messages",
 ["src/module/server/sps_server.cpp", "src/module/server/sps_server_handler.cpp", "src/log/sps_log.cpp", "src/module/http/sps_http_phase_handler.cpp", "src/sys/st/io/sps_sys_st_io_tcp.cpp"],
 ["one coroutine per connection, errors end only that connection"],
 "set of live connections", "a canary exchange on other connections, process liveness, descriptor count")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
