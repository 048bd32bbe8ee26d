From 5c47c1bacc9df9711ef054949b4f2529a04726ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:19 +0000
Subject: [PATCH 01/76] fix: log messages are printed as text, not as a format
 string

A client-supplied '%' sequence (URL, header) that reached a log message was
interpreted a second time by printf.
---
 src/log/sps_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/sps_log.cpp b/src/log/sps_log.cpp
index f33fc66..87436f5 100644
--- a/src/log/sps_log.cpp
+++ b/src/log/sps_log.cpp
@@ -46,7 +46,7 @@ void ConsoleLog::printf(LOG_LEVEL lev, const char *fmt, ...) {
     va_start(args, fmt);
     vsnprintf(buf + len, sizeof(buf) - len, fmt, args);
     va_end(args);
-    ::printf(buf);
+    ::printf("%s", buf);
 }
 
 ILog* default_log = new ConsoleLog();
-- 
2.43.0


From 9b6b101773588a75db5d3d47727f62890e29ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 02/76] fix: a failing accept() no longer takes the server down

When accept() failed (EMFILE, ENFILE, ECONNABORTED...) the null descriptor
was dereferenced and the process died. Report it, and retry after a pause so
that the other coroutines run and descriptors can be released.
---
 src/module/server/sps_server.cpp    | 8 ++++++++
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 6 ++++++
 src/sys/st/io/sps_sys_st_io_tcp.cpp | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/src/module/server/sps_server.cpp b/src/module/server/sps_server.cpp
index 062f9a2..1c1a107 100644
--- a/src/module/server/sps_server.cpp
+++ b/src/module/server/sps_server.cpp
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #include <sps_log.hpp>
 #include <sps_sys_st_io_ssl.hpp>
+#include <sps_sys_sync.hpp>
 
 namespace sps {
 
@@ -82,6 +83,13 @@ int Server::listen(std::string ip, int port, bool reuse_port, int backlog,
 error_t Server::accept() {
     do {
         auto io = server_socket->accept();
+
+        if (!io) {
+            // out of descriptors for now: let the connections make progress
+            SingleInstance<Sleep>::get_instance().usleep(10 * 1000);
+            continue;
+        }
+
         auto h  = factory->create(io);
 
         if (!h) {
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index ca44441..4a43d15 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -545,6 +545,12 @@ error_t StSSLAcceptor::handler() {
 
     do {
         auto sock = ssl.ssock->accept();
+
+        if (!sock) {
+            SingleInstance<Sleep>::get_instance().usleep(10 * 1000);
+            continue;
+        }
+
         auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
 
         // TODO: fixme with threads startup
diff --git a/src/sys/st/io/sps_sys_st_io_tcp.cpp b/src/sys/st/io/sps_sys_st_io_tcp.cpp
index 22062b9..9164ff8 100644
--- a/src/sys/st/io/sps_sys_st_io_tcp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_tcp.cpp
@@ -356,6 +356,11 @@ PSocket StTcpServerSocket::accept() {
     auto cfd = st_tcp_accept(server_fd, (struct sockaddr*) &addr,
                              &len, ST_UTIME_NO_TIMEOUT);
 
+    if (!cfd) {
+        sp_error("failed accept %s:%d", ip.c_str(), port);
+        return nullptr;
+    }
+
     std::string cip;
     int         cport = 0;
     addr2string(&addr, cip, cport);
@@ -363,6 +368,7 @@ PSocket StTcpServerSocket::accept() {
     // discovery client information
     socklen_t len2 = sizeof(addr);
     if (getsockname(st_netfd_fileno(cfd), (sockaddr*) &addr, &len2) == -1) {
+        st_netfd_close(cfd);
         return nullptr;
     }
 
-- 
2.43.0


From f60a32bff3712f22c956881d18d9a1bac05ebecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 03/76] fix: frame the 403 and 404 answers of a streaming host

They carried neither Content-Length nor a close, so a client could not tell
where the answer ended. After a refused upload the connection is closed, as
its unread body would be taken for the next request.
---
 src/module/http/sps_http_stream_phase_handler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1d6b05c..6a3ec32 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -50,14 +50,15 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
     ret = sh->handler(c);
 
     if (ret == ERROR_STREAM_PUBLISH_NOT_SUPPORT) {
-        rsp->init(403, nullptr, -1, false);
+        rsp->init(403, nullptr, 0, false);
         ret = rsp->write_header();
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
-        return ret;
+        // the body of the refused upload is not read: close the connection
+        return ERROR_STREAM_PUBLISH_NOT_SUPPORT;
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
-        rsp->init(404, nullptr, -1, false);
+        rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
-- 
2.43.0


From 217aad226fd9f072337cf4931dd2d46ac332ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:49 +0000
Subject: [PATCH 04/76] fix: an edge pull of a format without demuxer no longer
 crashes

GET of such an extension (say .mp4) on an edge host dereferenced the missing
demuxer as soon as the upstream answered 200.
---
 src/module/stream/sps_stream_edge.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index f6898ea..57925e0 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -68,6 +68,11 @@ error_t StreamEdge::handler() {
 
     do {
         auto dec = avf.create(io, url);
+        if (!dec) {
+            sp_error("Fail found decoder %s-%s", url->get_host(), url->get_url());
+            ret = ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
+            break;
+        }
         cache    = StreamCache::create_av_streamcache(key);
         cache->set_ctx(dec->get_av_ctx());
         cond->signal();
-- 
2.43.0


From e3cecf8cf1b528f1e52e54c4733e3dcfa7bb12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:19 +0000
Subject: [PATCH 05/76] fix: a format matches its own extension only

The comparison used the length of the format's extension twice: any extension
that merely starts with it (x.flvx, x.tsfoo) was taken for it, and a shorter
one was read past its end.
---
 src/avformat/sps_avformat_dec.cpp | 4 +---
 src/avformat/sps_avformat_enc.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_dec.cpp b/src/avformat/sps_avformat_dec.cpp
index 0c41c93..2f43972 100644
--- a/src/avformat/sps_avformat_dec.cpp
+++ b/src/avformat/sps_avformat_dec.cpp
@@ -35,9 +35,7 @@ IAVInputFormat::IAVInputFormat(const char *name, const char *ext) {
 }
 
 bool IAVInputFormat::match(const char *e) const {
-    int n = strlen(ext);
-    int m = strlen(ext);
-    return  memcmp(ext, e, std::max(n, m)) == 0;
+    return strcmp(ext, e) == 0;
 }
 
 PIAVDemuxer IAVInputFormat::create2(PIReader p) {
diff --git a/src/avformat/sps_avformat_enc.cpp b/src/avformat/sps_avformat_enc.cpp
index 1a1032c..941169e 100644
--- a/src/avformat/sps_avformat_enc.cpp
+++ b/src/avformat/sps_avformat_enc.cpp
@@ -41,9 +41,7 @@ IAVOutputFormat::IAVOutputFormat(const char *name, const char *ext) {
 }
 
 bool IAVOutputFormat::match(const char *e) const {
-    int n = strlen(ext);
-    int m = strlen(ext);
-    return memcmp(ext, e, std::max(n, m)) == 0;
+    return strcmp(ext, e) == 0;
 }
 
 PIAVMuxer IAVOutputFormat::create2(PIWriter pw, PRequestUrl& url) {
-- 
2.43.0


From 5f9557f0c8a08abf604f47702fbc21fa4d0fc72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:00 +0000
Subject: [PATCH 06/76] fix: writing six bits at once lost one of them

The mask for six bits was 0x2f.
---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 9ea0c9d..365424f 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -174,7 +174,7 @@ void BitContext::write_bits(uint64_t value, size_t n) {
         static uint32_t masks[]     =  {
                 0x01, 0x03,
                 0x07, 0x0f,
-                0x1f, 0x2f,
+                0x1f, 0x3f,
                 0x7f, 0xff
         };
 
-- 
2.43.0


From 790e2b85612e963ac1f341943e560b5efb0d0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:25 +0000
Subject: [PATCH 07/76] fix: appending to a packet buffer with a head no longer
 overwrites the head

pos() left out head_len, unlike buffer(): appended bytes landed head_len bytes
too early and the tail of the buffer was never filled.
---
 src/cache/sps_cache_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/sps_cache_buffer.hpp b/src/cache/sps_cache_buffer.hpp
index 753845a..1172e73 100644
--- a/src/cache/sps_cache_buffer.hpp
+++ b/src/cache/sps_cache_buffer.hpp
@@ -78,7 +78,7 @@ class CharBuffer : public IBuffer {
         assert(remain() >= sz);
         len += sz;
     }
-    uint8_t*   pos()              { return buf + len; }
+    uint8_t*   pos()              { return buf + head_len + len; }
     uint32_t   remain()           { return cap_len - len; }
     uint8_t*   head_pos()         { return head_len ? buf : nullptr; }
     uint32_t   head_size()            { return head_len; }
-- 
2.43.0


From 73814b8ecdcc70c455548fac28b26df39794a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 08/76] fix: the last line read from memory no longer keeps its
 newline

read_line() stripped the newline of every line but one that ended the buffer.
---
 src/io/sps_io_memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_memory.cpp b/src/io/sps_io_memory.cpp
index ce0e5ec..d11dfd3 100644
--- a/src/io/sps_io_memory.cpp
+++ b/src/io/sps_io_memory.cpp
@@ -81,7 +81,7 @@ error_t MemoryReaderWriter::read_line(std::string &line) {
     while (pos < len && buf[pos++] != '\n') {
     }
 
-    int tlen = (pos < len) ? (pos-start-1) : (pos-start);
+    int tlen = (buf[pos-1] == '\n') ? (pos-start-1) : (pos-start);
 
     line = std::string(buf + start, tlen);
 
-- 
2.43.0


From 1cba30891508b8436042f05b8a2966744f1c1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:05 +0000
Subject: [PATCH 09/76] fix: flv script and info tags keep their timestamp when
 demuxed

---
 src/avformat/sps_avformat_flvdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index b043f00..0eeb777 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -100,6 +100,7 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
     data_size     = rd->read_int24();  // data_size
     dts           = rd->read_int24();  // timestamp low 24 bit
     dts          |= ((uint32_t) rd->read_int8() << 24u);  // high 8 bit
+    pts           = dts;               // video frames may add a cts
     stream_id     = rd->read_int24();  // streamid
     AVStreamType stream_type = AV_STREAM_TYPE_NB;
 
@@ -145,7 +146,6 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         }
         pkt_type    =    rd->read_int8();  // 0. sequence header 1. aac data
         data_size   -=   2;
-        pts         = dts;
     } else if (stream_type == AV_STREAM_TYPE_VIDEO) {
         flags       = rd->read_int8();
 
-- 
2.43.0


From e10e789ae367853d07fe3536300482d631ed357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:05 +0000
Subject: [PATCH 10/76] fix: flv tags too short for their own header are
 refused, not read past

---
 src/avformat/sps_avformat_flvdec.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index 0eeb777..beb4413 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -133,6 +133,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
              "previous: %10u, data_size: %10.u, ",
             stream_type, pkt_type, flags, previous_size, data_size);
 
+    if (data_size <= 0) {
+        sp_error("data size is empty");
+        return ERROR_FLV_TAG;
+    }
+
     if (stream_type == AV_STREAM_TYPE_AUDIO) {
         flags   = rd->read_int8();
         // channels    = flags & 0x01    // (0. SndMomo 1. SndStero)
@@ -144,6 +149,10 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
             sp_error("unknown audio codecid: %d", codecid);
             return ERROR_FLV_AUDIO_CODECID;
         }
+        if (data_size < 2) {
+            sp_error("audio tag too short %d", data_size);
+            return ERROR_FLV_TAG;
+        }
         pkt_type    =    rd->read_int8();  // 0. sequence header 1. aac data
         data_size   -=   2;
     } else if (stream_type == AV_STREAM_TYPE_VIDEO) {
@@ -160,6 +169,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         --data_size;
 
         if (frame_type != 0x50) {
+            if (data_size < 4) {
+                sp_error("video tag too short %d", data_size);
+                return ERROR_FLV_TAG;
+            }
+
             // 0. avc sequence header 1. avc data 2. avc end data
             pkt_type = rd->read_int8();
 
-- 
2.43.0


From 9fb47312c2d9db2823efb89c3b6b04673dc3c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:53 +0000
Subject: [PATCH 11/76] fix: an ended edge pull no longer unregisters its
 successor

---
 src/module/stream/sps_stream_edge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index 57925e0..0da8bf2 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -97,6 +97,10 @@ error_t StreamEdge::start() {
 }
 
 error_t StreamEdge::stop() {
+    // once only: the key may belong to a newer pull when this one is destroyed
+    if (!started) {
+        return SUCCESS;
+    }
     started = false;
 
     if (cache) {
-- 
2.43.0


From eba635f4b5f8d96ac97bb03a725ef758dd5e741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:23 +0000
Subject: [PATCH 12/76] fix: bytes that are not an HTTP head are no longer
 taken for one

---
 src/module/http/sps_http_parser.cpp | 10 +++++++---
 src/module/http/sps_http_parser.hpp |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index c062568..7620e0d 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -183,10 +183,13 @@ int HttpParser::parse_header(PIReader io, HttpType ht) {
 int HttpParser::parse_header(const char *b, int len, HttpType ht) {
     http_parser_init(&ctx->http, (http_parser_type) ht);
 
+    head_complete = false;
     size_t parsed = http_parser_execute(&ctx->http, &http_setting, b, len);
 
-    if (parsed == 0) {
-        sp_error("parse execute zero %.*s", len, b);
+    if (HTTP_PARSER_ERRNO(&ctx->http) != HPE_OK || !head_complete) {
+        sp_error("not a http head %s, %.*s",
+                 http_errno_name(HTTP_PARSER_ERRNO(&ctx->http)), len, b);
+        return -1;
     }
 
     if ((ht == HttpType::REQUEST || ht == HttpType::BOTH) && parsed >= 0)  {
@@ -252,7 +255,8 @@ int HttpParser::on_header_value(http_parser* hp, const char *at,
     return SUCCESS;
 }
 
-int HttpParser::on_headers_complete(http_parser* ) {
+int HttpParser::on_headers_complete(http_parser* hp) {
+    static_cast<HttpParser *>(hp->data)->head_complete = true;
     return SUCCESS;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 203c230..0bc68c0 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -104,6 +104,7 @@ class HttpParser {
     int max_header;
     std::unique_ptr<char[]> buf;
     int buf_read;
+    bool head_complete = false;
 
     RequestHeader      head;
     PHttpParserContext ctx;
-- 
2.43.0


From 060eb1f6a5a809f154f5947f2bd40c908ca84527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:23 +0000
Subject: [PATCH 13/76] fix: logging a HTTP head no longer reads past it

---
 src/module/http/sps_http_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 7620e0d..6052edc 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -176,7 +176,7 @@ int HttpParser::parse_header(PIReader io, HttpType ht) {
         ht = HttpType::REQUEST;
     }
 
-    sp_debug("http head: %s", buf.get());
+    sp_debug("http head: %.*s", buf_read, buf.get());
     return parse_header(buf.get(), buf_read, ht);
 }
 
-- 
2.43.0


From 2c9deb1824ef72f5a4b65bcebe0d59d83f6c14db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:00 +0000
Subject: [PATCH 14/76] fix: HTTP header names are matched without regard to
 case

---
 src/io/url/sps_io_url.cpp           | 11 ++++++++---
 src/io/url/sps_io_url.hpp           |  2 ++
 src/io/url/sps_io_url_http.cpp      |  2 +-
 src/module/http/sps_http_parser.cpp |  4 ++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index a597b66..e5c8965 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_io_url.hpp>
 
 #include <http_parser.h>
+#include <strings.h>
 
 #include <sps_log.hpp>
 
@@ -36,6 +37,10 @@ RequestHeader::RequestHeader(const std::string &key, const std::string &value) {
     this->value = value;
 }
 
+bool RequestHeader::is(const std::string &name) const {
+    return strcasecmp(key.c_str(), name.c_str()) == 0;
+}
+
 error_t RequestUrl::from(const std::string &url, PRequestUrl &req) {
     req = std::make_shared<RequestUrl>();
     return req->parse_url(url);
@@ -168,14 +173,14 @@ const char * RequestUrl::get_ext() {
 
 std::string RequestUrl::get_header(const std::string& key) {
     for (auto& h : headers) {
-        if (h.key == key) return h.value;
+        if (h.is(key)) return h.value;
     }
     return "";
 }
 
 void RequestUrl::erase_header(const std::string &key) {
     for (auto it = headers.begin(); it != headers.end(); ++it) {
-        if (it->key == key) {
+        if (it->is(key)) {
             headers.erase(it);
             return;
         }
@@ -190,7 +195,7 @@ std::string RequestUrl::get_param(const std::string& key) {
 }
 
 bool RequestUrl::is_chunked() {
-    return get_header("Transfer-Encoding") == "chunked";
+    return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
 int RequestUrl::get_content_length() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index b6020ba..7b23ba2 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -44,6 +44,8 @@ namespace sps {
 struct RequestHeader {
     RequestHeader();
     explicit RequestHeader(const std::string& key, const std::string& value);
+    // header names are case-insensitive
+    bool is(const std::string& name) const;
     std::string key;
     std::string value;
 };
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index daf8c23..7d2763a 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -44,7 +44,7 @@ std::string http_request(const std::string& method, const std::string& url,
 
     if (headers) {
         for (auto& h : *headers)
-            if (h.key != "Host")
+            if (!h.is("Host"))
                 ss << h.key << ": " << h.value << CRCN;
     }
 
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 6052edc..92b72ca 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -53,7 +53,7 @@ const char* HttpParserContext::method() {
 
 bool HttpParserContext::contains(const std::string& key, std::string* value) {
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (h.is(key)) {
             if (value) *value = h.value;
             return true;
         }
@@ -66,7 +66,7 @@ bool HttpParserContext::contains(const std::string& key,
     if (!vs) return contains(key, (std::string*) nullptr);
 
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (h.is(key)) {
             (*vs).push_back(h.value);
         }
     }
-- 
2.43.0


From 22b3e3d49537eea2e9c8a7942f90dd2c38eddc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 15/76] fix: HTTP bodies of 2 GB and more keep their length

---
 src/io/url/sps_io_url.cpp                        | 4 ++--
 src/io/url/sps_io_url.hpp                        | 2 +-
 src/io/url/sps_io_url_http.cpp                   | 4 ++--
 src/module/http/sps_http_parser.cpp              | 2 +-
 src/module/http/sps_http_parser.hpp              | 4 ++--
 src/module/http/sps_http_phase_handler.cpp       | 4 ++--
 src/module/http/sps_http_proxy_phase_handler.cpp | 8 ++++----
 src/module/http/sps_http_socket.cpp              | 8 ++++----
 src/module/http/sps_http_socket.hpp              | 8 ++++----
 9 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index e5c8965..f32392b 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -198,13 +198,13 @@ bool RequestUrl::is_chunked() {
     return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
-int RequestUrl::get_content_length() {
+int64_t RequestUrl::get_content_length() {
     std::string cl = get_header("Content-Length");
     if (cl.empty()) {
         return -1;
     }
 
-    return atoi(cl.c_str());
+    return strtoll(cl.c_str(), nullptr, 10);
 }
 
 utime_t RequestUrl::get_timeout() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index 7b23ba2..94ae7f8 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -81,7 +81,7 @@ class RequestUrl {
 
  public:
     bool is_chunked();
-    int  get_content_length();
+    int64_t get_content_length();
 
  public:
     utime_t      get_timeout();
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 7d2763a..bb7631d 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -107,7 +107,7 @@ error_t HttpUrlProtocol::read(void *buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (rsp->content_length >= 0) {
-        size = std::min(rsp->content_length-nread, size);
+        size = std::min<uint64_t>(rsp->content_length-nread, size);
     }
 
     nr           = 0;
@@ -117,7 +117,7 @@ error_t HttpUrlProtocol::read(void *buf, size_t size, size_t& nr) {
         nread += nr;
 
         if (rsp->content_length >= 0) {
-            is_eof = nread >= rsp->content_length;
+            is_eof = nread >= (uint64_t) rsp->content_length;
         }
     }
 
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 92b72ca..3c49f9c 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -35,7 +35,7 @@ std::string HttpResponse::error() {
 }
 
 // http parse的结果
-int HttpParserContext::content_length() {
+int64_t HttpParserContext::content_length() {
     return http.content_length;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 0bc68c0..0f31df2 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -47,7 +47,7 @@ enum HttpType {
 
 class HttpResponse : public Response {
  public:
-    int   content_length = -1;
+    int64_t content_length = -1;
     int   status_code    = -1;
     bool  chunked        = false;
     std::list<RequestHeader> headers;
@@ -73,7 +73,7 @@ class HttpParserContext {
 
  public:
     // http parse的结果
-    int content_length();
+    int64_t content_length();
     bool is_chunked();
     int status_code();
     const char* method();
diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 5f21fc8..63ad815 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -49,10 +49,10 @@ error_t HttpParsePhaseHandler::handler(IConnection &c) {
                                                                                  ;
     c.set_context(ctx);
 
-    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %d",
+    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %lld",
              req->ip.c_str(), req->port, req->get_method(),
              req->host.c_str(), req->url.c_str(), req->params.c_str(),
-             req->is_chunked(), req->get_content_length());
+             req->is_chunked(), (long long) req->get_content_length());
 
     return SPS_PHASE_CONTINUE;
 }
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index c81ac20..153a53f 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -70,12 +70,12 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     rsp.init(http_rsp->status_code, &http_rsp->headers, http_rsp->content_length, http_rsp->chunked);
 
     if ((ret = rsp.write_header()) != SUCCESS) {
-        sp_error("write head status: %d, %lu, %d, %d.", http_rsp->status_code,
-                 http_rsp->headers.size(), http_rsp->content_length, ret);
+        sp_error("write head status: %d, %lu, %lld, %d.", http_rsp->status_code,
+                 http_rsp->headers.size(), (long long) http_rsp->content_length, ret);
         return ret;
     }
-    sp_debug("write head status %d, %lu, %d.", http_rsp->status_code,
-             http_rsp->headers.size(), http_rsp->content_length);
+    sp_debug("write head status %d, %lu, %lld.", http_rsp->status_code,
+             http_rsp->headers.size(), (long long) http_rsp->content_length);
 
     char   buf[1024];
     int    len  = sizeof(buf);
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 17b37d8..f2af07a 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -36,7 +36,7 @@ HttpRequestSocket::HttpRequestSocket(PIReaderWriter rw,
                                      const std::string &ip,
                                      int port,
                                      bool chunked,
-                                     int cl) :
+                                     int64_t cl) :
         Socket(std::move(rw), ip, port) {
     this->chunked        = chunked;
     this->content_length = cl;
@@ -53,7 +53,7 @@ error_t HttpRequestSocket::read(void* buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (content_length >= 0) {
-        size = std::min(content_length-nread, size);
+        size = std::min<uint64_t>(content_length-nread, size);
     }
 
     nr = 0;
@@ -63,7 +63,7 @@ error_t HttpRequestSocket::read(void* buf, size_t size, size_t& nr) {
         nread += nr;
 
         if (content_length >= 0) {
-            is_eof = nread >= content_length;
+            is_eof = nread >= (uint64_t) content_length;
         }
     }
 
@@ -161,7 +161,7 @@ HttpResponseSocket::HttpResponseSocket(PIReaderWriter rw,
 }
 
 error_t HttpResponseSocket::init(int s_code, std::list<RequestHeader> *hd,
-                                 int cl, bool ch) {
+                                 int64_t cl, bool ch) {
     this->status_code    = s_code;
     this->content_length = cl;
     this->chunked        = ch;
diff --git a/src/module/http/sps_http_socket.hpp b/src/module/http/sps_http_socket.hpp
index 2103652..a49f477 100644
--- a/src/module/http/sps_http_socket.hpp
+++ b/src/module/http/sps_http_socket.hpp
@@ -37,7 +37,7 @@ namespace sps {
 class HttpRequestSocket : public Socket {
  public:
     HttpRequestSocket(PIReaderWriter rw, const std::string& ip,
-                      int port, bool chunked, int content_length);
+                      int port, bool chunked, int64_t content_length);
 
  public:
     error_t read(void* buf, size_t size, size_t& nread) override;
@@ -50,7 +50,7 @@ class HttpRequestSocket : public Socket {
 
  public:
     bool   chunked;
-    int    content_length;
+    int64_t content_length;
     bool   is_eof          = false;
     size_t nread           = 0;
     size_t nb_chunked_size = 0;
@@ -63,14 +63,14 @@ class HttpResponseSocket : public Socket {
 
  public:
     error_t init(int s_code, std::list<RequestHeader>* hd,
-                 int content_len, bool chunked);
+                 int64_t content_len, bool chunked);
     error_t write_header();
     error_t write(void* buf, size_t size) override;
 
  private:
     int  status_code    = 200;
     bool sent_header    = false;
-    int  content_length = 0;
+    int64_t content_length = 0;
     bool chunked        = false;
     std::list<RequestHeader> headers;
 };
-- 
2.43.0


From 715402645faaa291bda9b44325684eef096e0647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 16/76] fix: the end of an empty HTTP body is its end, not a
 read of nothing

---
 src/io/url/sps_io_url_http.cpp      | 4 ++++
 src/module/http/sps_http_socket.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index bb7631d..f5bf45c 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -107,6 +107,10 @@ error_t HttpUrlProtocol::read(void *buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (rsp->content_length >= 0) {
+        if (nread >= (uint64_t) rsp->content_length) {
+            is_eof = true;
+            return ERROR_HTTP_RES_EOF;
+        }
         size = std::min<uint64_t>(rsp->content_length-nread, size);
     }
 
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index f2af07a..edc81c1 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -53,6 +53,10 @@ error_t HttpRequestSocket::read(void* buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (content_length >= 0) {
+        if (nread >= (uint64_t) content_length) {
+            is_eof = true;
+            return ERROR_HTTP_RES_EOF;
+        }
         size = std::min<uint64_t>(content_length-nread, size);
     }
 
-- 
2.43.0


From 8178a1339570e25a6313757fb8d7414d15544f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:30 +0000
Subject: [PATCH 17/76] fix: a malformed chunk size is an error, not the end of
 the body

---
 src/io/url/sps_io_url_http.cpp      | 16 +++++++++++++++-
 src/module/http/sps_http_socket.cpp | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index f5bf45c..1b11919 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -28,6 +28,8 @@ SOFTWARE.
 #include <sps_log.hpp>
 
 #include <algorithm>
+#include <cerrno>
+#include <cstring>
 #include <list>
 #include <memory>
 #include <sstream>
@@ -172,7 +174,19 @@ error_t HttpUrlProtocol::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+    char* end = nullptr;
+    errno     = 0;
+    size_t len = std::strtoul(tmp_buf, &end, 16);
+    size_t hex = strspn(tmp_buf, "0123456789abcdefABCDEF");
+
+    // 1*HEXDIG [ ";" chunk-ext ], strtoul alone takes signs, 0x and garbage
+    if (errno != 0 || hex == 0 || end != tmp_buf + hex ||
+        (end != tmp_buf + i - 2 && (*end == '\0' || !strchr("; \t", *end)))) {
+        sp_error("invalid read chunked length %s", tmp_buf);
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
+
+    nb_chunked_left = nb_chunked_size = len;
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index edc81c1..94255e7 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -25,6 +25,8 @@ SOFTWARE.
 
 #include <http_parser.h>
 
+#include <cerrno>
+#include <cstring>
 #include <sstream>
 
 #include <sps_http_parser.hpp>
@@ -122,7 +124,19 @@ error_t HttpRequestSocket::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
-    nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
+    char* end = nullptr;
+    errno     = 0;
+    size_t len = std::strtoul(tmp_buf, &end, 16);
+    size_t hex = strspn(tmp_buf, "0123456789abcdefABCDEF");
+
+    // 1*HEXDIG [ ";" chunk-ext ], strtoul alone takes signs, 0x and garbage
+    if (errno != 0 || hex == 0 || end != tmp_buf + hex ||
+        (end != tmp_buf + i - 2 && (*end == '\0' || !strchr("; \t", *end)))) {
+        sp_error("invalid read chunked length %s", tmp_buf);
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
+
+    nb_chunked_left = nb_chunked_size = len;
 
     sp_debug("read chunked length %lu", nb_chunked_size);
     return ret;  // SUCCESS
-- 
2.43.0


From 87dda193cf15b525f02ae2e1532acf2adea83167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:30 +0000
Subject: [PATCH 18/76] fix: a response states one framing only

---
 src/module/http/sps_http_socket.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 94255e7..4cc6a6b 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -192,7 +192,6 @@ error_t HttpResponseSocket::init(int s_code, std::list<RequestHeader> *hd,
 
 error_t HttpResponseSocket::write_header() {
     error_t  ret           = SUCCESS;
-    bool     content_sent  = false;
     bool     has_server    = false;
 
     std::stringstream  ss;
@@ -202,15 +201,15 @@ error_t HttpResponseSocket::write_header() {
         ss << "Transfer-Encoding: chunked" << CRCN;
     } else if (content_length >= 0) {
         ss << "Content-Length: " << content_length << CRCN;
-        content_sent = true;
     }
 
     for (auto& h : headers) {
-        if (h.key == "Content-Length" && content_sent) {
+        // the framing is chosen above: never a second, different one
+        if (h.is("Content-Length") || h.is("Transfer-Encoding")) {
             continue;
         }
 
-        if (h.key == "Server") {
+        if (h.is("Server")) {
             has_server = true;
         }
         ss << h.key << ": " << h.value << CRCN;
-- 
2.43.0


From 294be5a769e0de13521266f52d73030b7b4f87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:30 +0000
Subject: [PATCH 19/76] fix: url parameters without a value no longer swallow
 their successor

---
 src/io/url/sps_io_url.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index f32392b..1542564 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -87,31 +87,22 @@ error_t RequestUrl::parse_url(const std::string& url) {
                             u.field_data[UF_QUERY].len);
     }
 
-    auto off_pre = 0;
-
-    do {
-        auto off_key = params.find_first_of('=', off_pre);
-        if (off_key == std::string::npos) break;
-
-        std::string key = params.substr(off_pre, off_key - off_pre), value;
-        off_pre         = off_key + 1;
-        auto off_value  = params.find_first_of('&', off_pre);
-
-        if (off_value == std::string::npos) {
-            value   =  params.substr(off_pre);
-            pp.push_back(RequestHeader(key, value));
-            sp_debug("%lu, &:%u, [%s]=[%s], final:%u", off_key, -1,
-                     key.c_str(), value.c_str(), off_pre);
-            break;
-        }
+    for (size_t pos = 0; pos < params.size();) {
+        auto end = params.find_first_of('&', pos);
+        if (end == std::string::npos) end = params.size();
+
+        std::string param = params.substr(pos, end - pos);
+        pos               = end + 1;
+        if (param.empty()) continue;
 
-        value = params.substr(off_pre, off_value - off_pre);
-        off_pre = off_value + 1;
+        // a parameter without '=' has an empty value
+        auto        off_key = param.find_first_of('=');
+        std::string key     = param.substr(0, off_key);
+        std::string value   = off_key == std::string::npos ? "" : param.substr(off_key + 1);
 
-        sp_debug("%lu, &:%lu, [%s]=[%s], final:%u", off_key, off_value,
-                 key.c_str(), value.c_str(), off_pre);
+        sp_debug("[%s]=[%s]", key.c_str(), value.c_str());
         pp.push_back(RequestParam(key, value));
-    } while (true);
+    }
 
     auto n = path.rfind(".");
     if (n != std::string::npos) {
-- 
2.43.0


From bacd5632bb07d691a1ddcd29741b499f46994d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 20/76] fix: a chunk size followed by anything but an extension
 is refused

---
 src/io/url/sps_io_url_http.cpp      | 9 +++++++--
 src/module/http/sps_http_socket.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 1b11919..7ef4cd3 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -180,8 +180,13 @@ error_t HttpUrlProtocol::read_chunked_length() {
     size_t hex = strspn(tmp_buf, "0123456789abcdefABCDEF");
 
     // 1*HEXDIG [ ";" chunk-ext ], strtoul alone takes signs, 0x and garbage
-    if (errno != 0 || hex == 0 || end != tmp_buf + hex ||
-        (end != tmp_buf + i - 2 && (*end == '\0' || !strchr("; \t", *end)))) {
+    bool valid = errno == 0 && hex != 0 && end == tmp_buf + hex;
+    if (valid) {
+        end  += strspn(end, " \t");
+        valid = end == tmp_buf + i - 2 || *end == ';';
+    }
+
+    if (!valid) {
         sp_error("invalid read chunked length %s", tmp_buf);
         return ERROR_HTTP_CHUNKED_INVALID;
     }
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 4cc6a6b..b8560da 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -130,8 +130,13 @@ error_t HttpRequestSocket::read_chunked_length() {
     size_t hex = strspn(tmp_buf, "0123456789abcdefABCDEF");
 
     // 1*HEXDIG [ ";" chunk-ext ], strtoul alone takes signs, 0x and garbage
-    if (errno != 0 || hex == 0 || end != tmp_buf + hex ||
-        (end != tmp_buf + i - 2 && (*end == '\0' || !strchr("; \t", *end)))) {
+    bool valid = errno == 0 && hex != 0 && end == tmp_buf + hex;
+    if (valid) {
+        end  += strspn(end, " \t");
+        valid = end == tmp_buf + i - 2 || *end == ';';
+    }
+
+    if (!valid) {
         sp_error("invalid read chunked length %s", tmp_buf);
         return ERROR_HTTP_CHUNKED_INVALID;
     }
-- 
2.43.0


From c0e934757263bf9689383e172efcee0bcb4d0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:12 +0000
Subject: [PATCH 21/76] fix: host blocks of a second server on the same port
 are routed too

---
 src/module/server/sps_server_module.cpp | 18 ++++++++++++++++--
 src/module/server/sps_server_module.hpp |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index f0dce52..2db36e6 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -53,6 +53,7 @@ error_t ServerModule::get_router(ServerModule* sm, PHostModulesRouter& hr) {
             return ret;
         }
     }
+    sm->router = hr;
     return ret;
 }
 
@@ -214,8 +215,21 @@ error_t ServerModule::merge_server(PServerModule server_module) {
 }
 
 error_t ServerModule::merge_hosts(std::vector<PHostModule>& hosts) {
-    host_modules.insert(host_modules.end(), hosts.begin(), hosts.end());
-    return SUCCESS;
+    error_t ret = SUCCESS;
+
+    for (auto& h : hosts) {
+        // global hosts belong to every server, they are already there
+        if (std::find(host_modules.begin(), host_modules.end(), h) != host_modules.end()) {
+            continue;
+        }
+
+        if (router && (ret = router->register_host(h)) != SUCCESS) {
+            sp_error("fail merge host %s ret %d", h->module_name.c_str(), ret);
+            return ret;
+        }
+        host_modules.push_back(h);
+    }
+    return ret;
 }
 
 
diff --git a/src/module/server/sps_server_module.hpp b/src/module/server/sps_server_module.hpp
index 238038e..bea6384 100644
--- a/src/module/server/sps_server_module.hpp
+++ b/src/module/server/sps_server_module.hpp
@@ -113,6 +113,7 @@ class ServerModule : public IModule {
  private:
     PIConnHandlerFactory socket_handler;
     PServer              server;
+    PHostModulesRouter   router;
 };
 
 MODULE_FACTORY(Server)
-- 
2.43.0


From cca2f73cc51fb28af967fec5e2de5d202d237499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:09 +0000
Subject: [PATCH 22/76] fix: every http block has its own servers

---
 src/module/http/sps_http_module.cpp | 2 --
 src/module/http/sps_http_module.hpp | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/module/http/sps_http_module.cpp b/src/module/http/sps_http_module.cpp
index 0c8a168..39a6ddc 100644
--- a/src/module/http/sps_http_module.cpp
+++ b/src/module/http/sps_http_module.cpp
@@ -31,8 +31,6 @@ SOFTWARE.
 
 namespace sps {
 
-std::list<PServerModule> HttpModule::http_servers;
-
 error_t HttpModule::post_sub_module(PIModule sub) {
     if (sub->is_module("server")) {
         auto s = std::dynamic_pointer_cast<ServerModule>(sub);
diff --git a/src/module/http/sps_http_module.hpp b/src/module/http/sps_http_module.hpp
index 1855ae1..dfd3a94 100644
--- a/src/module/http/sps_http_module.hpp
+++ b/src/module/http/sps_http_module.hpp
@@ -53,7 +53,7 @@ typedef std::shared_ptr<HttpModule> PHttpModule;
 class HttpModule : public IModule {
  public:
     // merge http servers with same listen port
-    static std::list<PServerModule> http_servers;
+    std::list<PServerModule> http_servers;
 
  public:
     MODULE_CONSTRUCT(Http, http_options);
-- 
2.43.0


From d17c84e15bed125631f1a35aef64ee2381e305c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:04 +0000
Subject: [PATCH 23/76] fix: a proxied request carries its body and states its
 framing once

---
 src/io/url/sps_io_url.hpp                     |  2 +
 src/io/url/sps_io_url_http.cpp                | 63 ++++++++++++++++---
 src/io/url/sps_io_url_http.hpp                |  3 +
 .../http/sps_http_proxy_phase_handler.cpp     |  1 +
 4 files changed, 62 insertions(+), 7 deletions(-)

diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index 94ae7f8..ccd83eb 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -37,6 +37,7 @@ SOFTWARE.
 #include <memory>
 #include <string>
 
+#include <sps_io.hpp>
 #include <sps_util_typedef.hpp>
 
 namespace sps {
@@ -99,6 +100,7 @@ class RequestUrl {
     std::string params;
     std::list<RequestParam> pp;
     std::list<RequestHeader> headers;
+    PIReader body;  // body to send along, framed as the headers say
 
  public:
     utime_t tm = 10 * 1000 * 1000;
diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 7ef4cd3..f89fa25 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -38,25 +38,63 @@ SOFTWARE.
 namespace sps {
 
 std::string http_request(const std::string& method, const std::string& url,
-                         const std::string& host, const std::string& data,
+                         const std::string& host, const std::string& framing,
                          std::list<RequestHeader>* headers) {
+    bool has_accept = false;
     std::stringstream ss;
     ss  << method << " " << url << " HTTP/1.1" << CRCN
         << "Host: " << host << CRCN;
 
     if (headers) {
-        for (auto& h : *headers)
-            if (!h.is("Host"))
-                ss << h.key << ": " << h.value << CRCN;
+        for (auto& h : *headers) {
+            // host and framing are chosen here: never a second, different one
+            if (h.is("Host") || h.is("Content-Length") || h.is("Transfer-Encoding")) {
+                continue;
+            }
+
+            has_accept = has_accept || h.is("Accept");
+            ss << h.key << ": " << h.value << CRCN;
+        }
     }
 
-    ss << "Accept: */" << CRCN;
-    ss << "Content-Length: " << data.size() << CRCN;
+    if (!has_accept) {
+        ss << "Accept: */" << CRCN;
+    }
+    ss << framing << CRCN;
     ss << CRCN;
 
     return ss.str();
 }
 
+error_t HttpUrlProtocol::write_body(PSocket& socket, PRequestUrl& url) {
+    error_t ret = SUCCESS;
+    char    buf[1024];
+    size_t  nr  = 0;
+
+    while ((ret = url->body->read(buf, sizeof(buf), nr)) == SUCCESS) {
+        if (nr == 0) {
+            continue;
+        }
+
+        std::string data(buf, nr);
+        if (url->is_chunked()) {
+            std::stringstream ss;
+            ss << std::hex << nr << CRCN << data << CRCN;
+            data = ss.str();
+        }
+
+        if ((ret = socket->write((void*) data.c_str(), data.size())) != SUCCESS) {
+            return ret;
+        }
+    }
+
+    if (ret != ERROR_HTTP_RES_EOF) {
+        return ret;
+    }
+
+    return url->is_chunked() ? socket->write((void*) "0\r\n\r\n", 5) : SUCCESS;
+}
+
 // TODO(byrcoder): FIX ME
 error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
     error_t     ret = SUCCESS;
@@ -72,7 +110,12 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ERROR_HTTP_SOCKET_CONNECT;
     }
 
-    auto req = http_request(url->method, url->url, url->host, "",
+    bool        chunked  = url->body && url->is_chunked();
+    int64_t     length   = url->body ? url->get_content_length() : 0;
+    std::string framing  = chunked ? "Transfer-Encoding: chunked" :
+            "Content-Length: " + std::to_string(std::max<int64_t>(length, 0));
+
+    auto req = http_request(url->method, url->url, url->host, framing,
                             &url->headers);
 
     if ((ret = socket->write((char*) req.c_str(), req.size())) != SUCCESS) {
@@ -84,6 +127,12 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
     sp_debug("success open %s:%d -> request %s.", ip.c_str(),
               url->get_port(), req.c_str());
 
+    if ((chunked || length > 0) && (ret = write_body(socket, url)) != SUCCESS) {
+        sp_error("failed write body %d %s:%d %s.",  ret,
+                 socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
+        return ret;
+    }
+
     HttpParser parser;
     if ((ret = parser.parse_header(socket, HttpType::RESPONSE)) <= 0) {
         sp_error("failed parser %d %s:%d, %s.", ret,
diff --git a/src/io/url/sps_io_url_http.hpp b/src/io/url/sps_io_url_http.hpp
index 093f34c..5eaf283 100644
--- a/src/io/url/sps_io_url_http.hpp
+++ b/src/io/url/sps_io_url_http.hpp
@@ -48,6 +48,9 @@ class HttpUrlProtocol : public IURLProtocol {
 
     error_t read_chunked_data(void* buf, size_t size, size_t& nread);
 
+ private:
+    error_t write_body(PSocket& socket, PRequestUrl& url);
+
  public:
     bool eof();
 
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index 153a53f..78f2959 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -51,6 +51,7 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     auto sock              = std::make_shared<HttpRequestSocket>(
                               c.socket, ctx.req->ip, ctx.req->port,
                               ctx.req->is_chunked(), ctx.req->get_content_length());
+    proxy_req->body        = sock;
     ctx.host->get_proxy_info(proxy_req->ip, proxy_req->port);
 
     auto     url_protocol  = protocols.create(proxy_req);
-- 
2.43.0


From 05ca3c460795910343c674c6122768ffee8c53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:04 +0000
Subject: [PATCH 24/76] fix: answers without a body and interim answers are
 relayed as such

---
 src/io/url/sps_io_url_http.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index f89fa25..b38fb3c 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -133,14 +133,20 @@ error_t HttpUrlProtocol::open(PRequestUrl& url, Transport tp) {
         return ret;
     }
 
-    HttpParser parser;
-    if ((ret = parser.parse_header(socket, HttpType::RESPONSE)) <= 0) {
-        sp_error("failed parser %d %s:%d, %s.", ret,
-                 socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
-        return ret;
-    }
+    do {
+        HttpParser parser;
+        if ((ret = parser.parse_header(socket, HttpType::RESPONSE)) <= 0) {
+            sp_error("failed parser %d %s:%d, %s.", ret,
+                     socket->get_peer_ip().c_str(), socket->get_peer_port(), req.c_str());
+            return ret;
+        }
+
+        rsp = parser.get_response();
+        // interim responses come before the final one
+    } while (rsp->status_code >= 100 && rsp->status_code < 200 && rsp->status_code != 101);
 
-    PHttpResponse http_rsp = rsp = parser.get_response();
+    // no body whatever the headers say
+    is_eof = url->method == "HEAD" || rsp->status_code == 204 || rsp->status_code == 304;
 
     init(socket, ip, url->get_port(), "", -1);
 
-- 
2.43.0


From 71170092f3630d8ad22e2e80ace021b5aeca04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:32 +0000
Subject: [PATCH 25/76] fix: a comment may contain anything

---
 src/module/sps_module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 723a584..7b77ee9 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -227,6 +227,11 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
             continue;
         }
 
+        if (args.empty() && tmp_arg[0] == '#') {  // whatever follows
+            lt = COMMENT;
+            return SUCCESS;
+        }
+
         if (found_end) {
             if (tmp_arg[0] == '#') {
                 break; // ignore #
@@ -261,11 +266,6 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return SUCCESS;
     }
 
-    if (args[0][0] == '#') {
-        lt = COMMENT;
-        return SUCCESS;
-    }
-
     if (!found_end) {  // no end flag
         sp_error("Fatal no end flag %s", line.c_str());
         return ERROR_CONFIG_PARSE_INVALID;
-- 
2.43.0


From 0c021b024309e07aac0b2bf56bfb21da7950b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:32 +0000
Subject: [PATCH 26/76] fix: neither a block name nor the words before a
 closing brace are lost

---
 src/module/sps_module.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 7b77ee9..5ed92c2 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -271,8 +271,12 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return ERROR_CONFIG_PARSE_INVALID;
     }
 
-    if (args.size() == 1 && lt == SUBMODULE_END) {
-        return SUCCESS;
+    if (lt == SUBMODULE_END) {
+        if (args.size() == 1 && args[0] == "}") {
+            return SUCCESS;
+        }
+        sp_error("a block ends on a line of its own %s.", line.c_str());
+        return ERROR_CONFIG_PARSE_INVALID;
     }
 
     if (args.size() == 1) {
@@ -294,11 +298,10 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         }
     }
 
-    if (lt != SUBMODULE_START && lt != SUBMODULE_END) {
-        if (*args.rbegin() != ";") {
-            arg += (arg.empty() ? std::string("") : std::string(" ")) +
-                   args.rbegin()->substr(0, args.rbegin()->size() - 1);
-        }
+    // the end flag may stand alone or follow the last word
+    if (args.rbegin()->size() > 1) {
+        arg += (arg.empty() ? std::string("") : std::string(" ")) +
+               args.rbegin()->substr(0, args.rbegin()->size() - 1);
     }
 
     sp_debug("parse line (%s)->(%s) size:%lu", cmd.c_str(),
-- 
2.43.0


From af1eac3821cb1b5253acae0a9f832e6e45c71533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:32 +0000
Subject: [PATCH 27/76] fix: the options of location end

---
 src/module/host/sps_host_loc_module.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/host/sps_host_loc_module.hpp b/src/module/host/sps_host_loc_module.hpp
index 3baa0ac..49d45ff 100644
--- a/src/module/host/sps_host_loc_module.hpp
+++ b/src/module/host/sps_host_loc_module.hpp
@@ -39,6 +39,7 @@ struct LocationConfCtx : public HostConfCtx {
 #define OFFSET(x) offsetof(LocationConfCtx, x)
 static const ConfigOption loc_options[] = {
         HOST_OPTIONS,
+        { nullptr }
 };
 #undef OFFSET
 
-- 
2.43.0


From d3264c4d09461539cd8088f49bc026255d3f94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:32 +0000
Subject: [PATCH 28/76] fix: a value where the root expects a block is an error

---
 src/module/root/sps_root_module.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/root/sps_root_module.hpp b/src/module/root/sps_root_module.hpp
index cde2dc0..afe9df7 100644
--- a/src/module/root/sps_root_module.hpp
+++ b/src/module/root/sps_root_module.hpp
@@ -41,6 +41,10 @@ struct RootConfCtx : public ConfCtx {
 
 #define OFFSET(x) offsetof(RootConfCtx, x)
 static const ConfigOption core_options[] = {
+        {"http",        "http sub module",         0,  CONF_OPT_TYPE_SUBMODULE,  { .str = "" }, },
+        {"rtmp",        "rtmp sub module",         0,  CONF_OPT_TYPE_SUBMODULE,  { .str = "" }, },
+        {"upstream",    "upstream sub module",     0,  CONF_OPT_TYPE_SUBMODULE,  { .str = "" }, },
+        {"globalhost",  "global host sub module",  0,  CONF_OPT_TYPE_SUBMODULE,  { .str = "" }, },
         {nullptr}
 };
 #undef OFFSET
-- 
2.43.0


From 6c3e7d024d6d13fa23795f97a76ff267aa6cf57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:48 +0000
Subject: [PATCH 29/76] fix: zero bytes between two NAL units belong to neither

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 7a0dc7c..34fcccc 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -208,6 +208,19 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
                 sp_debug("not found next nalu, push full");
             }
             bc.skip_read_bytes(start_pos - bc.pos() + 3);
+
+            // trailing_zero_8bits and the zero_byte of the next start code
+            // are no part of the nalu, which never ends with 0
+            size_t zeros = 0;
+            while (zeros < nalu_size && bc.pos()[nalu_size - zeros - 1] == 0) {
+                ++zeros;
+            }
+
+            if ((ret = ctx->append(bc.pos(), nalu_size - zeros)) != SUCCESS) {
+                return ret;
+            }
+            bc.skip_read_bytes(nalu_size);
+            continue;
         }
 
         if (bc.acquire(nalu_size) != SUCCESS) {
-- 
2.43.0


From 2cf9a7ebc392940586593d0169bf313e20b06740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:48 +0000
Subject: [PATCH 30/76] fix: the H.264 configuration holds every parameter set
 and follows their changes

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 157 ++++++++++++++++--------
 src/avcodec/sps_avcodec_h264_parser.hpp |  10 ++
 2 files changed, 113 insertions(+), 54 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 34fcccc..c771a43 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -237,71 +237,120 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
     return SUCCESS;
 }
 
-error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
-    H264NAL* sps    = nullptr;
-    H264NAL* pps    = nullptr;
+// ue(v)
+static bool read_ue(BitContext& bc, uint32_t& value) {
+    int zeros = 0;
+    while (true) {
+        if (zeros > 16 || bc.acquire_bits(1) != SUCCESS) {
+            return false;
+        }
+        if (bc.read_bits(1)) {
+            break;
+        }
+        ++zeros;
+    }
+
+    if (bc.acquire_bits(zeros) != SUCCESS) {
+        return false;
+    }
+    value = (1u << zeros) - 1 + bc.read_bits(zeros);
+    return true;
+}
+
+error_t NALUParser::collect(NALUContext* ctx, bool& changed) {
+    auto sps = sps_sets;
+    auto pps = pps_sets;
 
     for (auto& n : ctx->nalu_list) {
-        if (n.is_sps()) {
-            sps = &n;
-        } else if (n.is_pps()) {
-            pps = &n;
+        if (!n.is_sps() && !n.is_pps()) {
+            continue;
         }
-    }
 
-    if (sps) {
-        // avc version(8bit), avc profile id(8bit) + avc compatibility(8bit) +
-        // avc level(8bit) + reserved(6bit) + nalu_length_size_minus_one (2bit, 2) +
-        // reserved(3bit) + sps_num(5bit) +
-        //     loop(sps_num): sps size (16bit) + sps data
-        // pps_num(8bit)
-        //      loop(pps_num): pps size (16bit) + (00 00 00 01) pps data
-        int pkt_sz = 5 + 1 + (sps ? 2 + (0 + sps->nalu_size) : 0) +
-                         1 + (pps ? 2 + (0 + pps->nalu_size) : 0);
-
-        if (sps->nalu_size < 4) {
-            sp_error("sps size %lu", sps->nalu_size);
+        // the id follows profile, compatibility and level in a sps
+        size_t   head = n.is_sps() ? 4 : 1;
+        uint32_t id   = 0;
+
+        if (n.nalu_size <= head || n.nalu_size > 0xffff) {
+            sp_error("parameter set size %lu", n.nalu_size);
             return ERROR_H264_ENCODER;
         }
 
-        uint8_t flag = H264;
-        // 1 keyframe 2. inner 3. h263 disposable 4.5. frame info or order frame
-        uint8_t frame_type = 0x01 << 4;
-        flag |= frame_type;
+        BitContext bc(n.nalu_buf + head, n.nalu_size - head);
+        if (!read_ue(bc, id) || id > (n.is_sps() ? 31 : 255)) {
+            sp_error("parameter set without id");
+            return ERROR_H264_ENCODER;
+        }
 
-        nalu_length_size_minus_one = 3;
-        auto pkt = AVPacket::create_empty_cap(AVMessageType::AV_MESSAGE_DATA,
-                         AV_STREAM_TYPE_VIDEO,
-                         AVPacketType{AV_VIDEO_TYPE_SEQUENCE_HEADER},
-                         pkt_sz,
-                         0,
-                         0,
-                         flag,
-                         H264);
+        (n.is_sps() ? sps : pps)[id] =
+                std::string((char*) n.nalu_buf, n.nalu_size);
+    }
 
-        BitContext bc(pkt->buffer(), pkt->cap());
-        bc.write_int8(0x01);  // avc version
-        bc.write_int8(sps->nalu_buf[1]);  // avc profile
-        bc.write_int8(0x00);  // avc compatibility
-        bc.write_int8(sps->nalu_buf[3]);  // avc level
-        bc.write_int8(nalu_length_size_minus_one);  // avc level
-
-        bc.write_int8(1);  // 1 sps num
-        bc.write_int16(sps->nalu_size);
-        // bc.write_int32(0x01);  // nalu start code 00 00 00 01
-        bc.write_bytes(sps->nalu_buf, sps->nalu_size);
-
-        bc.write_int8(pps ? 1 : 0);
-        if (pps) {
-            bc.write_int16(pps->nalu_size);
-            // bc.write_int32(0x01);  // nalu start code 00 00 00 01
-            bc.write_bytes(pps->nalu_buf, pps->nalu_size);
-        }
+    changed = sps != sps_sets || pps != pps_sets;
+    sps_sets.swap(sps);
+    pps_sets.swap(pps);
+    return SUCCESS;
+}
 
-        pkt->skip(bc.pos() - pkt->buffer());
-        pkts.push_back(pkt);
+void NALUParser::encode_header(std::list<PAVPacket>& pkts) {
+    // avc version(8bit), avc profile id(8bit) + avc compatibility(8bit) +
+    // avc level(8bit) + reserved(6bit) + nalu_length_size_minus_one (2bit, 2) +
+    // reserved(3bit) + sps_num(5bit) +
+    //     loop(sps_num): sps size (16bit) + sps data
+    // pps_num(8bit)
+    //      loop(pps_num): pps size (16bit) + pps data
+    size_t pkt_sz = 5 + 1 + 1;
+    for (auto& it : sps_sets) pkt_sz += 2 + it.second.size();
+    for (auto& it : pps_sets) pkt_sz += 2 + it.second.size();
+
+    // 1 keyframe 2. inner 3. h263 disposable 4.5. frame info or order frame
+    uint8_t flag = H264 | (0x01 << 4);
+
+    nalu_length_size_minus_one = 3;
+    auto pkt = AVPacket::create_empty_cap(AVMessageType::AV_MESSAGE_DATA,
+                     AV_STREAM_TYPE_VIDEO,
+                     AVPacketType{AV_VIDEO_TYPE_SEQUENCE_HEADER},
+                     pkt_sz,
+                     0,
+                     0,
+                     flag,
+                     H264);
+
+    auto& sps = sps_sets.begin()->second;
+    BitContext bc(pkt->buffer(), pkt->cap());
+    bc.write_int8(0x01);    // avc version
+    bc.write_int8(sps[1]);  // avc profile
+    bc.write_int8(sps[2]);  // avc compatibility
+    bc.write_int8(sps[3]);  // avc level
+    bc.write_int8(0xfc | nalu_length_size_minus_one);
+
+    bc.write_int8(0xe0 | sps_sets.size());
+    for (auto& it : sps_sets) {
+        bc.write_int16(it.second.size());
+        bc.write_bytes((uint8_t*) it.second.data(), it.second.size());
+    }
+
+    bc.write_int8(pps_sets.size());
+    for (auto& it : pps_sets) {
+        bc.write_int16(it.second.size());
+        bc.write_bytes((uint8_t*) it.second.data(), it.second.size());
+    }
+
+    pkt->skip(bc.pos() - pkt->buffer());
+    pkts.push_back(pkt);
+
+    sp_debug("avc seq header size %d, flag %x", pkt->size(), flag);
+}
+
+error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
+    bool    changed = false;
+    error_t ret     = collect(ctx, changed);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
 
-        sp_debug("avc seq header size %d, flag %x", pkt->size(), flag);
+    if (changed && !sps_sets.empty() && !pps_sets.empty()) {
+        encode_header(pkts);
     }
 
     for (auto& n : ctx->nalu_list) {
diff --git a/src/avcodec/sps_avcodec_h264_parser.hpp b/src/avcodec/sps_avcodec_h264_parser.hpp
index cef05df..c62f8cc 100644
--- a/src/avcodec/sps_avcodec_h264_parser.hpp
+++ b/src/avcodec/sps_avcodec_h264_parser.hpp
@@ -24,7 +24,9 @@ SOFTWARE.
 #ifndef SPS_AVCODEC_H264_PARSER_HPP
 #define SPS_AVCODEC_H264_PARSER_HPP
 
+#include <map>
 #include <memory>
+#include <string>
 #include <vector>
 
 #include <sps_util_typedef.hpp>
@@ -145,9 +147,17 @@ class NALUParser {
     error_t encode_avc(NALUContext* ctx, std::list<PAVPacket>& pkts);
     error_t encode_annexb(NALUContext* ctx, PAVPacket& pkt);
 
+ private:
+    error_t collect(NALUContext* ctx, bool& changed);
+    void    encode_header(std::list<PAVPacket>& pkts);
+
  private:
     bool is_avc;  // default
     int8_t nalu_length_size_minus_one;
+
+    // parameter sets in use by their id
+    std::map<uint32_t, std::string> sps_sets;
+    std::map<uint32_t, std::string> pps_sets;
 };
 typedef std::unique_ptr<NALUParser> PNALUParser;
 
-- 
2.43.0


From 57fa4fa9e151675d72c143a06600d287fc5ee7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:48 +0000
Subject: [PATCH 31/76] fix: comparing ADTS headers no longer assigns

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 5c0d5d1..6482cd1 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -55,7 +55,7 @@ AdtsFixedHeader::AdtsFixedHeader() {
 }
 
 bool AdtsFixedHeader::operator==(const AdtsFixedHeader &header) {
-    return protection_absent = header.protection_absent &&
+    return protection_absent == header.protection_absent &&
             profile == header.profile &&
             sampling_frequency_index == header.sampling_frequency_index &&
                     channel_configuration == header.channel_configuration &&
-- 
2.43.0


From 5a9a104c11d2dd2fee3323f68eeb8541d7d10488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:48 +0000
Subject: [PATCH 32/76] fix: ADTS frames that are shorter than their header or
 cut off are refused

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 6482cd1..16f747e 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -96,6 +96,10 @@ error_t AdtsFixedHeader::decode(BitContext *bc) {
     no_raw_data_blocks_in_frame = bc->read_bits(2);
 
     if (!protection_absent) {
+        if (bc->acquire(2) != SUCCESS) {
+            sp_error("aac size < 9");
+            return ERROR_AAC_DECODER;
+        }
         crc16 = bc->read_bits(16);
     }
 
@@ -128,6 +132,14 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
             return ret;
         }
 
+        int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
+
+        // the frame must hold its header and be there as a whole
+        if (buf_size < 0 || bc.acquire(buf_size) != SUCCESS) {
+            sp_error("aac frame length %d", tmp_header.aac_frame_length);
+            return ERROR_AAC_DECODER;
+        }
+
         if (!header || !(*header == tmp_header)) {
             if (!header) {
                 header = std::make_unique<AdtsFixedHeader>();
@@ -164,15 +176,9 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
             pkts.push_back(pkt);
         }
 
-        if (tmp_header.aac_frame_length <= 0) {
-            sp_error("aac frame length %d", tmp_header.aac_frame_length);
-            return ERROR_AAC_DECODER;
-        }
-
         auto flags = (AAC << 4) | FLV_SAMPLERATE_44100HZ |
                      FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
 
-        int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
         auto pkt = AVPacket::create(
                 AV_MESSAGE_DATA,
                 AV_STREAM_TYPE_AUDIO,
-- 
2.43.0


From 913e6117b93b87746fdf7a109b6bb5891fc7ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:19 +0000
Subject: [PATCH 33/76] fix: an AAC sequence header counts as sent only when
 its buffer is delivered

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 16f747e..0e5d108 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -124,6 +124,11 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
     error_t ret = SUCCESS;
     BitContext bc(in_buf, in_size);
 
+    // the caller drops the packets of a failing buffer, the sequence header
+    // among them must not count as sent
+    PAdtsFixedHeader last_header = header;
+    std::list<PAVPacket> out;
+
     while (bc.size() > 0) {
         AdtsFixedHeader tmp_header;
         uint8_t* start = bc.pos();
@@ -140,23 +145,19 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
             return ERROR_AAC_DECODER;
         }
 
-        if (!header || !(*header == tmp_header)) {
-            if (!header) {
-                header = std::make_unique<AdtsFixedHeader>();
-            }
-
-            *header = tmp_header;
+        if (!last_header || !(*last_header == tmp_header)) {
+            last_header = std::make_shared<AdtsFixedHeader>(tmp_header);
 
             uint8_t aac_header[2];
             auto flags = (AAC << 4) | FLV_SAMPLERATE_44100HZ |
                          FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
             // AVPacketType 0 aac to flv
             BitContext bc_header(aac_header, sizeof(aac_header));
-            int n_profile = (header->profile) + 1;
+            int n_profile = (last_header->profile) + 1;
 
             bc_header.write_bits(n_profile, 5);  // profile
-            bc_header.write_bits(header->sampling_frequency_index, 4);  // sample rate index
-            bc_header.write_bits(header->channel_configuration, 4);
+            bc_header.write_bits(last_header->sampling_frequency_index, 4);  // sample rate index
+            bc_header.write_bits(last_header->channel_configuration, 4);
             // frame length - 1024 samples
             // does not depend on core coder
             // is not extension
@@ -173,7 +174,7 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
                     flags,
                     AAC
             );
-            pkts.push_back(pkt);
+            out.push_back(pkt);
         }
 
         auto flags = (AAC << 4) | FLV_SAMPLERATE_44100HZ |
@@ -192,11 +193,13 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
         );
 
         sp_debug("audio dts %lld", ctx->dts);
-        pkts.push_back(pkt);
+        out.push_back(pkt);
 
         bc.skip_read_bytes(buf_size);
     }
 
+    header = last_header;
+    pkts.splice(pkts.end(), out);
     return ret;
 }
 
-- 
2.43.0


From 4c0edfec108672a4d42bd376691e9b45fee2558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:42 +0000
Subject: [PATCH 34/76] fix: the AAC frames of one buffer follow each other in
 time

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 0e5d108..d4dcbee 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -129,6 +129,9 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
     PAdtsFixedHeader last_header = header;
     std::list<PAVPacket> out;
 
+    // the timestamp is that of the first frame, in ms
+    double offset = 0;
+
     while (bc.size() > 0) {
         AdtsFixedHeader tmp_header;
         uint8_t* start = bc.pos();
@@ -177,6 +180,13 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
             out.push_back(pkt);
         }
 
+        auto dts = ctx->dts / ctx->timebase + (int64_t) offset;
+        auto rate = avpriv_mpeg4audio_sample_rates[
+                tmp_header.sampling_frequency_index];
+        if (rate > 0) {
+            offset += 1024 * 1000.0 / rate;
+        }
+
         auto flags = (AAC << 4) | FLV_SAMPLERATE_44100HZ |
                      FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
 
@@ -186,8 +196,8 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
                 AVPacketType{AV_AUDIO_TYPE_SEQUENCE_DATA},
                 bc.pos(),
                 buf_size,
-                ctx->dts / ctx->timebase,
-                ctx->dts / ctx->timebase,
+                dts,
+                dts,
                 flags,
                 AAC
         );
-- 
2.43.0


From 6100535f32ea75f652d9fbb8d6d64244e189f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:45 +0000
Subject: [PATCH 35/76] fix: the optional fields of an adaptation field stay
 inside of it

---
 src/avformat/sps_avformat_ts.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 3397571..342db5b 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -835,6 +835,18 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
     flags.transport_private_data_flag = rd.read_bits(1);
     flags.adaptation_field_extension_flag = rd.read_bits(1);
 
+    // the fields must fit into the adaptation field
+    int left = adaption_field_length - 1;
+    left -= flags.PCR_flag ? 6 : 0;
+    left -= flags.OPCR_flag ? 6 : 0;
+    left -= flags.splicing_point_flag ? 1 : 0;
+    left -= flags.transport_private_data_flag ? 1 : 0;
+
+    if (left < 0) {
+        sp_error("adaption field length %d too small", adaption_field_length);
+        return ERROR_TS_PACKET_DECODE;
+    }
+
     if (flags.PCR_flag) {
         pcr.program_clock_reference_base = rd.read_bits(33);
         pcr.pcr_reserved = rd.read_bits(6);
@@ -850,11 +862,13 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
         splice_countdown = rd.read_int8();
     }
 
-    if (flags.adaptation_field_extension_flag) {
+    if (flags.transport_private_data_flag) {
         transport_private_data_length = rd.read_int8();
 
-        if ((ret = rd.acquire(transport_private_data_length)) != SUCCESS) {
-            return ret;
+        if (transport_private_data_length > left) {
+            sp_error("private data length %d too large",
+                     transport_private_data_length);
+            return ERROR_TS_PACKET_DECODE;
         }
 
         transport_private_data = std::make_unique<uint8_t[]>(
-- 
2.43.0


From 5ea00ea13749d58b952f87940d537b34f9c8657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:45 +0000
Subject: [PATCH 36/76] fix: table sections start at the pointer field and are
 read within their length

---
 src/avformat/sps_avformat_ts.cpp | 47 ++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 342db5b..e72f055 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -62,16 +62,28 @@ TsPsiProgram::TsPsiProgram(int pid, TsContext *ctx) : TsProgram(pid, ctx) {
 
 // work as ffmpeg parse_section_header
 error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
-    auto ret = rd.acquire(8);
+    // sections larger than one packet are not supported
+    if (!pkt->payload_unit_start_indicator) {
+        sp_debug("psi pid %d ignore section remain", pid);
+        return SUCCESS;
+    }
+
+    auto ret = rd.acquire(1);
 
     if (ret != SUCCESS) {
         sp_error("no enough size ret %d", ret);
         return ret;
     }
+    pointer_field = rd.read_int8();
+
+    // the end of another section, and the head of the one that starts here
+    ret = rd.acquire(pointer_field + 8);
 
-    if (pkt->payload_unit_start_indicator) {
-        pointer_field = rd.read_int8();
+    if (ret != SUCCESS) {
+        sp_error("no enough size ret %d", ret);
+        return ret;
     }
+    rd.skip_read_bytes(pointer_field);
 
     // section header
     table_id = rd.read_int8();
@@ -92,13 +104,27 @@ error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
     // 5 pre size, 4 crc32
     int left_length = flags1.section_length - 5 - 4;
 
+    if (left_length < 0) {
+        sp_error("psi pid %d section_length %d", pid, flags1.section_length);
+        return ERROR_TS_PACKET_DECODE;
+    }
+
+    if (rd.acquire(left_length + 4) != SUCCESS) {
+        sp_warn("psi pid %d ignore section_length %d, has %lu", pid,
+                flags1.section_length, rd.size());
+        return SUCCESS;
+    }
+
     sp_debug("psi pid %d, section_syntax_indicator %x, const_value0 %x, reserved %x, "
             "section_length %x, transport_stream_id %x ",
             pid, flags1.section_syntax_indicator, flags1.const_value0, flags1.reserved,
             flags1.section_length, flags1.transport_stream_id);
 
-    ret = psi_decode(pkt, rd);
+    // the section without its crc32
+    BitContext section(rd.pos(), left_length);
+    ret = psi_decode(pkt, section);
 
+    rd.skip_read_bytes(left_length);
     crc_32 = rd.read_int32();
 
     return ret;
@@ -110,6 +136,10 @@ TsSdtProgram::TsSdtProgram(int pid, TsContext *ctx) : TsPsiProgram(pid, ctx) {
 error_t TsSdtProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     error_t ret = SUCCESS;
 
+    if ((ret = rd.acquire(1)) != SUCCESS) {
+        sp_error("not enough size ret %d", ret);
+        return ret;
+    }
     reserved_future_use = rd.read_int8();
 
     return ret; // TODO FIXME
@@ -133,7 +163,7 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
             return ret;
         }
 
-        while (left_length > 0) {
+        while (left_length >= 4) {
             PmtInfo info;
             info.program_number  = rd.read_int16();
             info.reserved        = rd.read_bits(3);
@@ -202,6 +232,11 @@ error_t TsPmtProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     while (left_length > 0) {
         auto info = std::make_shared<PesInfo>();
 
+        if ((ret = rd.acquire(5)) != SUCCESS) {
+            sp_error("not enough size ret %d", ret);
+            return ret;
+        }
+
         info->header.stream_type = rd.read_int8();
         info->header.reserved1   = rd.read_bits(3);
         info->header.elementary_pid = rd.read_bits(13);
@@ -764,7 +799,7 @@ error_t TsContext::decode(uint8_t* p, size_t len) {
     }
 
     // has no payload
-    if ((pkt.adaptation_filed_control & 0x01) == 0 && !program->is_section()) {
+    if ((pkt.adaptation_filed_control & 0x01) == 0) {
         return ret;
     }
 
-- 
2.43.0


From e62bca07c06d545d1dd3c1fc7eda2760d62a9043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:45 +0000
Subject: [PATCH 37/76] fix: only program map sections are read as such

---
 src/avformat/sps_avformat_ts.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index e72f055..e39ffd7 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -120,6 +120,13 @@ error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
             pid, flags1.section_syntax_indicator, flags1.const_value0, flags1.reserved,
             flags1.section_length, flags1.transport_stream_id);
 
+    // other tables may share the pid
+    if ((program_type == TS_PROGRAM_PAT && table_id != 0x00) ||
+        (program_type == TS_PROGRAM_PMT && table_id != 0x02)) {
+        sp_debug("psi pid %d ignore table %x", pid, table_id);
+        return SUCCESS;
+    }
+
     // the section without its crc32
     BitContext section(rd.pos(), left_length);
     ret = psi_decode(pkt, section);
@@ -175,6 +182,11 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     }
 
     for (auto& pmt : pmt_infos) {
+        // the network information table
+        if (pmt.program_number == 0) {
+            continue;
+        }
+
         sp_debug("pmt pid %d", pmt.program_map_pid);
         ctx->add_program(pmt.program_map_pid, std::make_shared<TsPmtProgram>(
                 (int) pmt.program_map_pid, ctx
-- 
2.43.0


From 3faa3f9d680919886969ea56b9e42e44c5e89669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:45 +0000
Subject: [PATCH 38/76] fix: a transport stream may be joined at any packet,
 and packets may repeat

---
 src/avformat/sps_avformat_ts.cpp | 20 +++++++++++++-------
 src/avformat/sps_avformat_ts.hpp |  1 -
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index e39ffd7..35914d2 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -412,7 +412,6 @@ TsPesProgram::TsPesProgram(int pid, TsContext *ctx,
     pes_ctx           = std::make_unique<TsPesContext>(ctx, stream_type);
     this->stream_type = stream_type;
     this->pcr_pid     = pcr_pid;
-    this->continuity_counter = 0x0f;
 
     name = get_stream_name(stream_type);
 }
@@ -420,20 +419,27 @@ TsPesProgram::TsPesProgram(int pid, TsContext *ctx,
 error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
     error_t ret = SUCCESS;
 
-    if (pkt->payload_unit_start_indicator == 0 && !pes_ctx->pes_packets) {
-        sp_error("[%s] pes packet is null", name);
-        return ERROR_TS_PACKET_DECODE;
+    // a packet may be sent twice
+    if (last_cc == pkt->continuity_counter) {
+        sp_debug("[%s] ts pid %x, ignore duplicate cc %x", name, pid, last_cc);
+        return SUCCESS;
     }
 
-    if (pkt->continuity_counter != (((int) continuity_counter + 1) & 0x0f)) {
+    if (last_cc >= 0 && pkt->continuity_counter != ((last_cc + 1) & 0x0f)) {
         sp_error("[%s] ts pid %x, last cc %x, now %x",
                  name,
                  pid,
-                 continuity_counter,
+                 last_cc,
                  pkt->continuity_counter);
         return ERROR_TS_PACKET_CC_CONTINUE;
     }
-    continuity_counter = pkt->continuity_counter;
+    last_cc = pkt->continuity_counter;
+
+    // joined amid a pes packet
+    if (pkt->payload_unit_start_indicator == 0 && !pes_ctx->pes_packets) {
+        sp_debug("[%s] pes packet is null", name);
+        return SUCCESS;
+    }
 
     if (pkt->payload_unit_start_indicator == 0) {
         return pes_ctx->dump(rd, pkt->payload_unit_start_indicator);
diff --git a/src/avformat/sps_avformat_ts.hpp b/src/avformat/sps_avformat_ts.hpp
index 0165e0a..fed021f 100644
--- a/src/avformat/sps_avformat_ts.hpp
+++ b/src/avformat/sps_avformat_ts.hpp
@@ -454,7 +454,6 @@ class TsPesProgram : public TsProgram {
     PTsPesContext pes_ctx;
     int stream_type;
     int pcr_pid;
-    uint8_t continuity_counter;
 
     const char* name;
 };
-- 
2.43.0


From e337ddbc858e2e31172bcf44fa1e5b4b97647b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:45 +0000
Subject: [PATCH 39/76] fix: the length of a PES packet counts its header too

---
 src/avformat/sps_avformat_ts.cpp    | 27 ++++++++++++++++++++++-----
 src/avformat/sps_avformat_ts.hpp    |  2 ++
 src/avformat/sps_avformat_tsdec.cpp |  2 +-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 35914d2..343e360 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -338,6 +338,11 @@ void TsPesContext::init(int sz) {
 
     pts = -1;
     dts = -1;
+    payload_size = -1;
+}
+
+void TsPesContext::limit(int sz) {
+    payload_size = sz;
 }
 
 error_t TsPesContext::dump(BitContext &rd, int payload_unit_start_indicator) {
@@ -351,8 +356,8 @@ error_t TsPesContext::dump(BitContext &rd, int payload_unit_start_indicator) {
     }
 
     size_t left_size = rd.size();
-    if (pes_packet_length > 0) {
-        left_size = std::min((size_t) pes_packet_length - pes_packets->size(), rd.size());
+    if (payload_size >= 0) {
+        left_size = std::min((size_t) payload_size - pes_packets->size(), rd.size());
     }
 
     if (pes_packets->remain() < left_size) {
@@ -461,14 +466,14 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
         pes_packet_header.stream_id = rd.read_int8();
         pes_packet_header.pes_packet_length = rd.read_int16();
 
-        // pes new packet
-        pes_ctx->init(pes_packet_header.pes_packet_length);
-
         if (pes_packet_header.packet_start_code_prefix != 0x000001) {
             sp_error("packet_start_code_prefix %x not start with 0x01",
                      pes_packet_header.packet_start_code_prefix);
             return ERROR_TS_PACKET_DECODE;
         }
+
+        // pes new packet
+        pes_ctx->init(pes_packet_header.pes_packet_length);
     }
 
     uint32_t code = (uint32_t) 0x0100 | pes_packet_header.stream_id;
@@ -501,6 +506,18 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
 
         pes_header.pes_header_data_length = rd.read_int8();
 
+        // the length counts the rest of the header too
+        if (pes_packet_header.pes_packet_length > 0) {
+            int head_size = 3 + pes_header.pes_header_data_length;
+            if (pes_packet_header.pes_packet_length < head_size) {
+                sp_error("pes_packet_length %d < head size %d",
+                         pes_packet_header.pes_packet_length, head_size);
+                pes_ctx->pes_packets.reset();
+                return ERROR_TS_PACKET_DECODE;
+            }
+            pes_ctx->limit(pes_packet_header.pes_packet_length - head_size);
+        }
+
         // sp_info("debug left %ld", rd.size());
         uint8_t* pos = rd.pos();
 
diff --git a/src/avformat/sps_avformat_ts.hpp b/src/avformat/sps_avformat_ts.hpp
index fed021f..d597c6f 100644
--- a/src/avformat/sps_avformat_ts.hpp
+++ b/src/avformat/sps_avformat_ts.hpp
@@ -265,6 +265,7 @@ class TsPesContext {
 
  public:
     void init(int sz);
+    void limit(int sz);  // size of the payload
     error_t flush();
 
  private:
@@ -280,6 +281,7 @@ class TsPesContext {
     int64_t dts = -1;
     uint16_t pes_packet_length = 0;
     uint32_t pes_packet_cap    = 0;
+    int      payload_size      = -1;  // -1 up to the next unit
     PCharBuffer pes_packets;
     TsContext* ctx;
 };
diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index 72786fd..e2c06b5 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -159,7 +159,7 @@ error_t TsDemuxer::on_h264(TsPesContext* pes) {
 
     AVCodecContext ctx(pes->dts, pes->pts, 90);
     ret = video_codec_parser->encode_avc(&ctx, pes->pes_packets->buffer(),
-                                         pes->pes_packet_length, pkts);
+                                         pes->pes_packets->size(), pkts);
 
     if (ret != SUCCESS) {
         sp_error("fail encode video ret %d", ret);
-- 
2.43.0


From 84d809f8e813a50624847031488c9bbc24df46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:45 +0000
Subject: [PATCH 40/76] fix: padding PES packets are no access units

---
 src/avformat/sps_avformat_ts.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 343e360..2581543 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -794,6 +794,7 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
                 stuff_head_size
         );
     } else if (code == 0x1be) {  // padding stream
+        pes_ctx->pes_packets.reset();
         rd.skip_read_bytes(rd.size());
     } else if (code == 0x1bc || code == 0x1bf ||
                code == 0x1f0 || code == 0x1f1 ||
-- 
2.43.0


From 688ce0050df165852ef5f5beba25b8558b36af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:45 +0000
Subject: [PATCH 41/76] fix: relayed TS packets keep their unit start mark

---
 src/avformat/sps_avformat_packet.cpp | 6 +++---
 src/avformat/sps_avformat_packet.hpp | 4 ++++
 src/avformat/sps_avformat_tsdec.cpp  | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_packet.cpp b/src/avformat/sps_avformat_packet.cpp
index 40678cc..2e81a83 100644
--- a/src/avformat/sps_avformat_packet.cpp
+++ b/src/avformat/sps_avformat_packet.cpp
@@ -113,15 +113,15 @@ bool AVPacket::is_audio_sequence_header() {
 }
 
 bool AVPacket::is_pat() {
-    return stream_type == AV_STREAM_PSI && (pkt_type.pkt_type & 0x8FFFFF) == TS_PROGRAM_PAT;
+    return stream_type == AV_STREAM_PSI && (pkt_type.pkt_type & ~AV_TS_UNIT_START) == TS_PROGRAM_PAT;
 }
 
 bool AVPacket::is_pmt() {
-    return stream_type == AV_STREAM_PSI && (pkt_type.pkt_type & 0x8FFFFF)  == TS_PROGRAM_PMT;
+    return stream_type == AV_STREAM_PSI && (pkt_type.pkt_type & ~AV_TS_UNIT_START) == TS_PROGRAM_PMT;
 }
 
 bool AVPacket::is_payload_unit_start_indicator() {
-    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000)  == 1;
+    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & AV_TS_UNIT_START) != 0;
 }
 
 void AVPacket::debug() {
diff --git a/src/avformat/sps_avformat_packet.hpp b/src/avformat/sps_avformat_packet.hpp
index d59aa93..31c3ee4 100644
--- a/src/avformat/sps_avformat_packet.hpp
+++ b/src/avformat/sps_avformat_packet.hpp
@@ -69,6 +69,10 @@ enum AudioPktType {
     AV_AUDIO_TYPE_SEQUENCE_DATA = 1,
 };
 
+enum TsPktType {
+    AV_TS_UNIT_START = 1 << 30,  // besides TsProgramType
+};
+
 struct AVPacketType {
     int pkt_type;
 };
diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index e2c06b5..0ed433e 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -43,7 +43,7 @@ error_t TsCache::on_packet(uint8_t *buf, size_t len,
         TsProgramType ts_type, int payload_unit_start_indicator) {
     auto pkt = AVPacket::create(AV_MESSAGE_DATA,
             ts_type == TS_PROGRAM_PES ? AV_STREAM_PES : AV_STREAM_PSI,
-            AVPacketType{ts_type | (payload_unit_start_indicator >> 31)},
+            AVPacketType{ts_type | (payload_unit_start_indicator ? AV_TS_UNIT_START : 0)},
             buf,
             len, 0, 0);
     return cache->put(pkt);
-- 
2.43.0


From ea53204db73d874680ecf07234e40e8356c771c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:45 +0000
Subject: [PATCH 42/76] fix: a lost TS packet costs the PES packet it belongs
 to, not the stream

---
 src/avformat/sps_avformat_ts.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 2581543..84bc2a1 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -430,13 +430,14 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
         return SUCCESS;
     }
 
+    // packets were lost, resume with the next pes packet
     if (last_cc >= 0 && pkt->continuity_counter != ((last_cc + 1) & 0x0f)) {
-        sp_error("[%s] ts pid %x, last cc %x, now %x",
-                 name,
-                 pid,
-                 last_cc,
-                 pkt->continuity_counter);
-        return ERROR_TS_PACKET_CC_CONTINUE;
+        sp_warn("[%s] ts pid %x, last cc %x, now %x",
+                name,
+                pid,
+                last_cc,
+                pkt->continuity_counter);
+        pes_ctx->pes_packets.reset();
     }
     last_cc = pkt->continuity_counter;
 
-- 
2.43.0


From 5ea37a9f11405085c890dbd729c5ec656b61df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:40 +0000
Subject: [PATCH 43/76] fix: a buffer of no capacity can be appended nothing

---
 src/cache/sps_cache_buffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cache/sps_cache_buffer.hpp b/src/cache/sps_cache_buffer.hpp
index 1172e73..671c5bf 100644
--- a/src/cache/sps_cache_buffer.hpp
+++ b/src/cache/sps_cache_buffer.hpp
@@ -70,6 +70,9 @@ class CharBuffer : public IBuffer {
  public:
     void  append(uint8_t* p, uint32_t sz) {
         assert(remain() >= sz);
+        if (sz == 0) {
+            return;
+        }
         memcpy(pos(), p, sz);
         len += sz;
     }
-- 
2.43.0


From 86c615fd6cc3d86f65f8af422aec1a49361aeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:12 +0000
Subject: [PATCH 44/76] fix: a complete PES packet survives the loss of the
 next one's packets

---
 src/avformat/sps_avformat_ts.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 84bc2a1..dc5868c 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -437,7 +437,16 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
                 pid,
                 last_cc,
                 pkt->continuity_counter);
+        // a pes packet that is known to be complete lost nothing
+        if (pes_ctx->pes_packets && pes_ctx->payload_size >= 0 &&
+            pes_ctx->pes_packets->size() == (uint32_t) pes_ctx->payload_size) {
+            ret = pes_ctx->flush();
+        }
         pes_ctx->pes_packets.reset();
+
+        if (ret != SUCCESS) {
+            return ret;
+        }
     }
     last_cc = pkt->continuity_counter;
 
-- 
2.43.0


From 08ffeef7e0aac1340ac0794c0953acc9653efdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 45/76] fix: AAC can be chosen as the codec of an RTP session

---
 src/avformat/sps_avformat_rtpdec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 3324d07..e647106 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -77,6 +77,7 @@ error_t RtpDemuxer::init_codec(int codec_id) {
             break;
         case AVCODEC_AAC:
             rtp_decoder = std::make_shared<AacRtpDecoder>();
+            break;
         default:
             sp_error("not found codec %d", codec_id);
             return ERROR_RTP_PROBE;
-- 
2.43.0


From 139634273cfcbc07ca23a9d27ff5358a686eb32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 46/76] fix: the length of an RTP header extension counts
 32-bit words

---
 src/avformat/sps_avformat_rtp.cpp | 10 +++++-----
 src/avformat/sps_avformat_rtp.hpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_rtp.cpp b/src/avformat/sps_avformat_rtp.cpp
index 72476d7..381bfd9 100644
--- a/src/avformat/sps_avformat_rtp.cpp
+++ b/src/avformat/sps_avformat_rtp.cpp
@@ -100,14 +100,14 @@ error_t RtpPayloadHeader::decode_extension(BitContext &bc) {
         return ret;
     }
 
-    if ((ret = bc.acquire(extension_info.length)) != SUCCESS) {
-        sp_error("fail require rtp header extension length %u",
-                 extension_info.length);
+    uint32_t size = extension_info.length * 4;
+    if ((ret = bc.acquire(size)) != SUCCESS) {
+        sp_error("fail require rtp header extension length %u", size);
         return ret;
     }
 
-    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_info.length);
-    bc.read_bytes(extension_info.header_extension.get(), extension_info.length);
+    extension_info.header_extension = std::make_unique<uint8_t[]>(size);
+    bc.read_bytes(extension_info.header_extension.get(), size);
 
     return ret;
 }
diff --git a/src/avformat/sps_avformat_rtp.hpp b/src/avformat/sps_avformat_rtp.hpp
index ec61085..ada2ca8 100644
--- a/src/avformat/sps_avformat_rtp.hpp
+++ b/src/avformat/sps_avformat_rtp.hpp
@@ -82,7 +82,7 @@ class RtpPayloadHeader {
 
     struct {
         uint16_t define_by_profile;
-        uint16_t length;
+        uint16_t length;  // in 32-bit words
         std::unique_ptr<uint8_t[]> header_extension;
     } extension_info;
 };
-- 
2.43.0


From afbb25237d4c288ecb1f07ed795cf4a43c9e742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 47/76] fix: RTP padding is no payload, other versions of RTP
 are refused

---
 src/avformat/sps_avformat_rtp.cpp    |  5 +++++
 src/avformat/sps_avformat_rtpdec.cpp | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtp.cpp b/src/avformat/sps_avformat_rtp.cpp
index 381bfd9..fe4b80a 100644
--- a/src/avformat/sps_avformat_rtp.cpp
+++ b/src/avformat/sps_avformat_rtp.cpp
@@ -51,6 +51,11 @@ error_t RtpPayloadHeader::decode(BitContext &bc) {
     }
 
     fix_header.version = bc.read_bits(2);
+    if (fix_header.version != 2) {
+        sp_error("rtp version %d", fix_header.version);
+        return ERROR_RTP_PROBE;
+    }
+
     fix_header.padding = bc.read_bits(1);
     fix_header.extension = bc.read_bits(1);
     fix_header.cc        = bc.read_bits(4);
diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index e647106..a8a0135 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -55,7 +55,18 @@ error_t IRtpDecoder::decode(uint8_t *buffer, int size, std::list<PAVPacket> &pkt
         return ERROR_RTP_PAYLOAD_TYPE;
     }
 
-    return decode(rtp_header, bc, pkts);
+    size_t len = bc.size();
+    if (rtp_header.fix_header.padding) {
+        uint8_t padding = buffer[size - 1];
+        if (padding == 0 || padding > len) {
+            sp_error("padding %d of %lu bytes", padding, len);
+            return ERROR_RTP_PROBE;
+        }
+        len -= padding;
+    }
+
+    BitContext payload(bc.pos(), len);
+    return decode(rtp_header, payload, pkts);
 }
 
 bool IRtpDynamicDecoder::match(int pt) {
-- 
2.43.0


From 8097de07828d11b20e86d3b5937e2a96d533dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 48/76] fix: RTP datagrams are decoded one by one, whole and
 with any marker

---
 src/avformat/sps_avformat_rtp.hpp    |  2 +-
 src/avformat/sps_avformat_rtpdec.cpp | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_rtp.hpp b/src/avformat/sps_avformat_rtp.hpp
index ada2ca8..1a32541 100644
--- a/src/avformat/sps_avformat_rtp.hpp
+++ b/src/avformat/sps_avformat_rtp.hpp
@@ -29,7 +29,7 @@ SOFTWARE.
 #include <sps_avformat_packet.hpp>
 #include <sps_io_bits.hpp>
 
-#define RTP_MAX_LENGTH 3000
+#define RTP_MAX_LENGTH 65536
 #define RTP_NALU_MAX_LENGTH 1 * 1024 * 1024
 
 namespace sps {
diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index a8a0135..dfbf9c0 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -123,14 +123,19 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             return ret;
         }
 
-        RtpPayloadHeader rtp_header;
-        if ((ret = rd->acquire(12)) != SUCCESS) {
+        // one datagram, it must not be completed from the next one
+        if ((ret = rd->acquire(1)) != SUCCESS) {
             return ret;
         }
 
         uint8_t* p   = rd->pos();
         size_t   len = rd->size();
 
+        if (len < 4) {
+            sp_error("[rtp] datagram of %lu bytes", len);
+            return ERROR_RTP_PROBE;
+        }
+
         uint8_t pay_type = p[1];
         if (is_rtcp(pay_type)) {
             if ((ret = rtcp_decoder->decode(p, len, pkts)) != SUCCESS) {
@@ -139,7 +144,7 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             continue;
         }
 
-        if (!rtp_decoder && (ret = init_rtp_decode(pay_type)) != SUCCESS) {
+        if (!rtp_decoder && (ret = init_rtp_decode(pay_type & 0x7f)) != SUCCESS) {
             sp_error("[rtp] decoder not init ret %d", ret);
             return ERROR_RTP_PROBE;
         }
-- 
2.43.0


From 9c380aa45333c6ea7d4d78052fbefb534efd8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 49/76] fix: H.264 parameter sets that come in RTP packets of
 their own are put together

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 30 +++++++++++++------
 .../sps_avformat_rtpdec_h264_hevc.hpp         | 26 ++++++++++++++--
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6821c0f..87f159a 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -62,6 +62,10 @@ bool FuDecoder::is_end() {
     return header.e == 1;
 }
 
+NaluRtpDecoder::NaluRtpDecoder(H264AVCodecParser& h264_codec)
+    : h264_codec(h264_codec) {
+}
+
 error_t NaluRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     // TODO: fixme dts, use clock timestamp
@@ -74,7 +78,6 @@ error_t NaluRtpDecoder::decode(int tp, RtpPayloadHeader &header,
      * objectionable.
      */
     AVCodecContext ctx(get_time() * 90, header.fix_header.timestamp, 90);
-    H264AVCodecParser h264_codec;
     auto ret = h264_codec.encode_raw_nalu(&ctx, bc.pos(), bc.size(), pkts);
 
     if (ret != SUCCESS) {
@@ -86,6 +89,10 @@ error_t NaluRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
+StapRtpDecoder::StapRtpDecoder(H264AVCodecParser& h264_codec)
+    : h264_codec(h264_codec) {
+}
+
 error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
@@ -101,7 +108,7 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
             return ret;
         }
 
-        NaluRtpDecoder dc;
+        NaluRtpDecoder dc(h264_codec);
         ret = dc.decode(tp, header, bc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] stap-decode ret %d", ret);
@@ -112,6 +119,10 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
+MtapRtpDecoder::MtapRtpDecoder(H264AVCodecParser& h264_codec)
+    : h264_codec(h264_codec) {
+}
+
 // TODO: fixme dts, pts timestamp
 error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
@@ -137,7 +148,7 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
             return ret;
         }
 
-        NaluRtpDecoder dc;
+        NaluRtpDecoder dc(h264_codec);
         ret = dc.decode(tp, header, bc, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] mtap-decode ret %d", ret);
@@ -147,7 +158,8 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
-FuRtpDecoder::FuRtpDecoder(PCharBuffer &pkt, int64_t ts) : pkt(pkt) {
+FuRtpDecoder::FuRtpDecoder(H264AVCodecParser& h264_codec, PCharBuffer &pkt, int64_t ts)
+    : h264_codec(h264_codec), pkt(pkt) {
     this->pre_rtp_timestamp = ts;
 }
 
@@ -202,7 +214,7 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     if (fu.is_end()) {
         sp_debug("fu ending");
 
-        NaluRtpDecoder dc;
+        NaluRtpDecoder dc(h264_codec);
         BitContext nbc(pkt->buffer(), pkt->size());
         ret = dc.decode(tp, header, nbc, pkts);
 
@@ -227,21 +239,21 @@ PIRtpH264Decoder H264RtpDecoder::create_decoder(BitContext& bc, uint8_t nal_unit
      */
     if (ZERO_RESERVED < nal_unit_type
         && nal_unit_type < STAP_A) {
-        return std::make_shared<NaluRtpDecoder>();
+        return std::make_shared<NaluRtpDecoder>(h264_codec);
     }
 
     switch (nal_unit_type) {
         case STAP_B:
         case STAP_A:
-            return  std::make_shared<StapRtpDecoder>();
+            return  std::make_shared<StapRtpDecoder>(h264_codec);
             break;
         case MTAP16:
         case MTAP24:
-            return  std::make_shared<MtapRtpDecoder>();
+            return  std::make_shared<MtapRtpDecoder>(h264_codec);
             break;
         case FU_A:
         case FU_B:
-            return  std::make_shared<FuRtpDecoder>(pkt, rtp_timestamp);
+            return  std::make_shared<FuRtpDecoder>(h264_codec, pkt, rtp_timestamp);
             break;
         default:
             sp_error("fail ingore nalu type %d", nal_unit_type);
diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
index aa4cfd4..aaa775a 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
@@ -101,6 +101,8 @@ class FuDecoder {
 // h264 rtp decoder
 class IRtpH264Decoder {
  public:
+    virtual ~IRtpH264Decoder() = default;
+
     virtual error_t decode(int tp, RtpPayloadHeader& header,
             BitContext& bc, std::list<PAVPacket>& pkts) = 0;
 };
@@ -108,34 +110,53 @@ typedef std::shared_ptr<IRtpH264Decoder> PIRtpH264Decoder;
 
 // raw nalu decode
 class NaluRtpDecoder : public IRtpH264Decoder {
+ public:
+    explicit NaluRtpDecoder(H264AVCodecParser& h264_codec);
+
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
             BitContext& bc, std::list<PAVPacket>& pkts) override;
+
+ private:
+    H264AVCodecParser& h264_codec;
 };
 
 // stap-a/b decode
 class StapRtpDecoder : public IRtpH264Decoder {
+ public:
+    explicit StapRtpDecoder(H264AVCodecParser& h264_codec);
+
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
+
+ private:
+    H264AVCodecParser& h264_codec;
 };
 
 // mtap-a/b decode
 class MtapRtpDecoder : public IRtpH264Decoder {
+ public:
+    explicit MtapRtpDecoder(H264AVCodecParser& h264_codec);
+
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
+
+ private:
+    H264AVCodecParser& h264_codec;
 };
 
 // fu-a/b decode
 class FuRtpDecoder : public IRtpH264Decoder {
  public:
-    FuRtpDecoder(PCharBuffer& pkt, int64_t rtp_timestamp);
+    FuRtpDecoder(H264AVCodecParser& h264_codec, PCharBuffer& pkt, int64_t rtp_timestamp);
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
 
  private:
+    H264AVCodecParser& h264_codec;
     PCharBuffer& pkt;
     int64_t pre_rtp_timestamp;
 };
@@ -148,8 +169,9 @@ class H264RtpDecoder : public IRtpDynamicDecoder {
     error_t decode(RtpPayloadHeader& header, BitContext& bc, std::list<PAVPacket>& pkts) override;
 
  private:
+    H264AVCodecParser h264_codec;  // parameter sets come in packets of their own
     PCharBuffer pkt;
-    int64_t rtp_timestamp;
+    int64_t rtp_timestamp = 0;
 };
 
 }  // namespace sps
-- 
2.43.0


From f1d4c639e168bbbe86cd2db1f892839dc92b83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 50/76] fix: RTP aggregation packets are divided into their NAL
 units

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 46 ++++++++++++++-----
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 87f159a..6729edb 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -97,19 +97,31 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
 
-    if (tp == STAP_B) {
-        bc.skip_read_bytes(2);
+    // nal header(1) + decoding order number(2) of stap-b
+    int head = tp == STAP_B ? 3 : 1;
+    if ((ret = bc.acquire(head)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(head);
 
     while (bc.size() > 0) {
-        int size = bc.read_int8();
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
+        int size = bc.read_int16();
 
         if ((ret = bc.acquire(size)) != SUCCESS) {
             return ret;
         }
 
+        if (size == 0) {
+            return ERROR_RTP_DECODER_H264;
+        }
+
         NaluRtpDecoder dc(h264_codec);
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nalu(bc.pos(), size);
+        bc.skip_read_bytes(size);
+        ret = dc.decode(tp, header, nalu, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] stap-decode ret %d", ret);
             return ret;
@@ -129,27 +141,39 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     error_t ret = SUCCESS;
     int offset_len = tp == MTAP16 ? 2 : 3;
 
-    if (tp == MTAP24) {
-        bc.skip_read_bytes(3); // donb decoding order number base
+    // nal header(1) + donb decoding order number base(2)
+    if ((ret = bc.acquire(1 + 2)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(1 + 2);
+
+    const uint32_t timestamp = header.fix_header.timestamp;
 
     while (bc.size() > 0) {
         //  mtap header
-        //  nalu_size(1) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
-        if ((ret = bc.acquire(1 + 1 + offset_len)) != SUCCESS) {
+        //  nalu_size(2) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
+        if ((ret = bc.acquire(2 + 1 + offset_len)) != SUCCESS) {
             return ret;
         }
 
-        auto nalu_size = bc.read_int8();
-        auto nalu_dond = bc.read_int8();
+        auto nalu_size = bc.read_int16();
+        bc.read_int8();  // nalu_dond
         auto nalu_ts_offset = offset_len == 3 ? bc.read_int24() : bc.read_int16();
 
         if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
             return ret;
         }
 
+        if (nalu_size == 0) {
+            return ERROR_RTP_DECODER_H264;
+        }
+
         NaluRtpDecoder dc(h264_codec);
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nalu(bc.pos(), nalu_size);
+        bc.skip_read_bytes(nalu_size);
+        header.fix_header.timestamp = timestamp + nalu_ts_offset;
+        ret = dc.decode(tp, header, nalu, pkts);
+        header.fix_header.timestamp = timestamp;
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] mtap-decode ret %d", ret);
             return ret;
-- 
2.43.0


From 9d254a67485bfd85964a7966bd3d0b6246e08dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 51/76] fix: fragments of a NAL unit follow each other, a lost
 one costs that unit only

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 48 ++++++++++---------
 .../sps_avformat_rtpdec_h264_hevc.hpp         |  8 ++--
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6729edb..9c45ecb 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -182,39 +182,38 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     return ret;
 }
 
-FuRtpDecoder::FuRtpDecoder(H264AVCodecParser& h264_codec, PCharBuffer &pkt, int64_t ts)
-    : h264_codec(h264_codec), pkt(pkt) {
-    this->pre_rtp_timestamp = ts;
+FuRtpDecoder::FuRtpDecoder(H264AVCodecParser& h264_codec, PCharBuffer &pkt, uint16_t& next_seq)
+    : h264_codec(h264_codec), pkt(pkt), next_seq(next_seq) {
 }
 
 error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
     FuDecoder fu;
+
+    // a fragment got lost, its nalu is lost
+    if (pkt && (header.fix_header.sequence_num & 0xffff) != next_seq) {
+        sp_warn("[rtp@h264] fu seq %d, expect %d",
+                (int) header.fix_header.sequence_num, next_seq);
+        pkt.reset();
+    }
+
     if ((ret = fu.decode(bc)) != SUCCESS) {
         sp_error("[rtp@h264] fu-decode ret %d", ret);
         return ret;
     }
 
     if (fu.indicator.tp == FU_B) {
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            sp_error("[rtp@h264] fu-decode ret %d", ret);
+            return ret;
+        }
         bc.skip_read_bytes(2); // don
     }
-    // start nalu
+    // start nalu, one that did not end is lost
     if (fu.is_start()) {
         sp_debug("fu starting tp %d, indicator %d", tp, fu.indicator.tp);
 
-        if (pkt) {
-            return ERROR_RTP_DECODER_H264;
-            //            NaluRtpDecoder dc;
-            //            RtpPayloadHeader tmp_header;
-            //            tmp_header.fix_header.timestamp = pre_rtp_timestamp;
-            //            BitContext nbc(pkt->pos(), pkt->size());
-            //            ret = dc.decode(tp, tmp_header, nbc, pkts);
-            //            if (ret != SUCCESS) {
-            //                sp_error("[rtp@h264] fu-decode ret %d", ret);
-            //                return ret;
-            //            }
-        }
         pkt = std::make_shared<CharBuffer>(RTP_NALU_MAX_LENGTH, 0);
 
         uint8_t nal_header = (int32_t) (fu.indicator.f << 7) | (fu.indicator.nri << 5) | fu.header.tp;
@@ -231,24 +230,29 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     }
 
     // nalu payload
+    if (pkt->remain() < bc.size()) {
+        sp_error("[rtp@h264] nalu exceeds %d", pkt->cap());
+        pkt.reset();
+        return ERROR_RTP_DECODER_H264;
+    }
     pkt->append(bc.pos(), bc.size());
     bc.skip_read_bytes(bc.size());
+    next_seq = header.fix_header.sequence_num + 1;
 
     // end nalu
     if (fu.is_end()) {
         sp_debug("fu ending");
 
         NaluRtpDecoder dc(h264_codec);
-        BitContext nbc(pkt->buffer(), pkt->size());
+        // whether it can be decoded or not, the next one starts anew
+        PCharBuffer nalu = std::move(pkt);
+        BitContext nbc(nalu->buffer(), nalu->size());
         ret = dc.decode(tp, header, nbc, pkts);
 
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] fu-decode ret %d", ret);
             return ret;
         }
-
-        // free the pkt
-        pkt.reset();
     }
 
     return ret;
@@ -277,7 +281,7 @@ PIRtpH264Decoder H264RtpDecoder::create_decoder(BitContext& bc, uint8_t nal_unit
             break;
         case FU_A:
         case FU_B:
-            return  std::make_shared<FuRtpDecoder>(h264_codec, pkt, rtp_timestamp);
+            return  std::make_shared<FuRtpDecoder>(h264_codec, pkt, next_seq);
             break;
         default:
             sp_error("fail ingore nalu type %d", nal_unit_type);
@@ -317,8 +321,6 @@ error_t H264RtpDecoder::decode(RtpPayloadHeader& header, BitContext& bc, std::li
         return ret;
     }
 
-    this->rtp_timestamp = header.fix_header.timestamp;
-
     return ret;
 }
 
diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
index aaa775a..5666ed5 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.hpp
@@ -150,7 +150,7 @@ class MtapRtpDecoder : public IRtpH264Decoder {
 // fu-a/b decode
 class FuRtpDecoder : public IRtpH264Decoder {
  public:
-    FuRtpDecoder(H264AVCodecParser& h264_codec, PCharBuffer& pkt, int64_t rtp_timestamp);
+    FuRtpDecoder(H264AVCodecParser& h264_codec, PCharBuffer& pkt, uint16_t& next_seq);
  public:
     error_t decode(int tp, RtpPayloadHeader& header,
                    BitContext& bc, std::list<PAVPacket>& pkts) override;
@@ -158,7 +158,7 @@ class FuRtpDecoder : public IRtpH264Decoder {
  private:
     H264AVCodecParser& h264_codec;
     PCharBuffer& pkt;
-    int64_t pre_rtp_timestamp;
+    uint16_t& next_seq;
 };
 
 class H264RtpDecoder : public IRtpDynamicDecoder {
@@ -170,8 +170,8 @@ class H264RtpDecoder : public IRtpDynamicDecoder {
 
  private:
     H264AVCodecParser h264_codec;  // parameter sets come in packets of their own
-    PCharBuffer pkt;
-    int64_t rtp_timestamp = 0;
+    PCharBuffer pkt;            // of the fragments so far
+    uint16_t next_seq = 0;      // of the next fragment
 };
 
 }  // namespace sps
-- 
2.43.0


From d18b7c3191a6a726dfeefcdc0c8cc44f28f3dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:32 +0000
Subject: [PATCH 52/76] fix: AU headers of another size than two bytes are
 refused

---
 src/avformat/sps_avformat_rtpdec_aac.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec_aac.cpp b/src/avformat/sps_avformat_rtpdec_aac.cpp
index 17e69a2..0425964 100644
--- a/src/avformat/sps_avformat_rtpdec_aac.cpp
+++ b/src/avformat/sps_avformat_rtpdec_aac.cpp
@@ -63,6 +63,11 @@ error_t RtpAacAuHeader::decode(BitContext &bc) {
 
     au_headers_length = bc.read_int16();  // bits
     int au_headers_byte   = (au_headers_length + 7) / 8;
+
+    if (au_headers_length % (8 * au_header_size) != 0) {
+        sp_error("[rtp@aac] au headers of %d bits", au_headers_length);
+        return ERROR_RTP_PROBE;
+    }
     nb_au_headers     = au_headers_byte / au_header_size;
 
     if ((ret = bc.acquire(au_header_size * nb_au_headers)) != SUCCESS) {
-- 
2.43.0


From ba235e52a0abb484008fd29aa75112246bfd4bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:32 +0000
Subject: [PATCH 53/76] fix: RTCP report blocks begin with the source they
 report about

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 3 ++-
 src/avformat/sps_avformat_rtpdec_rtcp.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index e34f73c..7a08e83 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -52,12 +52,13 @@ std::string IRtcpDecoder::debug() {
 }
 
 error_t RtcpSRReportBlock::decode(BitContext &bc) {
-    error_t ret = bc.acquire(20);
+    error_t ret = bc.acquire(SIZE);
 
     if (ret != SUCCESS) {
         return ret;
     }
 
+    ssrc = bc.read_int32();
     fraction_lost = bc.read_int8();
     cum_number_pkt_lost = bc.read_int24();
     extend_high_seq_num_recv = bc.read_int32();
diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.hpp b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
index 52f2263..1ec72c3 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.hpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
@@ -53,10 +53,11 @@ typedef std::shared_ptr<IRtcpDecoder> PIRtcpDecoder;
 
 class RtcpSRReportBlock {
  public:
-    static const int SIZE = 20;
+    static const int SIZE = 24;
  public:
     error_t decode(BitContext& bc);
 
+    uint32_t ssrc;
     uint32_t fraction_lost : 8;
     uint32_t cum_number_pkt_lost : 24;  // 24 bit
     uint32_t extend_high_seq_num_recv;
-- 
2.43.0


From a1eee95f74a793ee31cecc1d2c14229e5fcf119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:32 +0000
Subject: [PATCH 54/76] fix: RTCP source descriptions are decoded chunk by
 chunk, item by item

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 50 +++++++++++++++++------
 src/avformat/sps_avformat_rtpdec_rtcp.hpp | 11 +++--
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index 7a08e83..12fd4c4 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -129,36 +129,60 @@ std::string RtcpRRDecoder::debug() {
 }
 
 error_t RtcpSDES::decode(BitContext &bc) {
-    error_t ret = bc.acquire(6);
+    error_t ret = bc.acquire(4);
 
     if (ret != SUCCESS) {
         return ret;
     }
 
     ssrc = bc.read_int32();
-    item_type = bc.read_int8();
-    item_length = bc.read_int8();
 
-    if ((ret = bc.acquire(item_length)) != SUCCESS) {
-        return ret;
-    }
+    // items up to a null one, padded to 32 bits
+    int size = 0;
+    do {
+        RtcpSDESItem item;
+
+        if ((ret = bc.acquire(1)) != SUCCESS) {
+            return ret;
+        }
+        item.item_type = bc.read_int8();
+        size += 1;
+
+        if (item.item_type == 0) {
+            int padding = (4 - size % 4) % 4;
+            if ((ret = bc.acquire(padding)) != SUCCESS) {
+                return ret;
+            }
+            bc.skip_read_bytes(padding);
+            return SUCCESS;
+        }
+
+        if ((ret = bc.acquire(1)) != SUCCESS) {
+            return ret;
+        }
+        item.item_length = bc.read_int8();
+        size += 1 + item.item_length;
+
+        if ((ret = bc.acquire(item.item_length)) != SUCCESS) {
+            return ret;
+        }
 
-    item_value = CharBuffer::create_buf(item_length);
-    item_value->append(bc.pos(), item_length);
-    bc.skip_read_bytes(item_length);
+        item.item_value = CharBuffer::create_buf(item.item_length);
+        item.item_value->append(bc.pos(), item.item_length);
+        bc.skip_read_bytes(item.item_length);
+        items.push_back(item);
+    } while (true);
 
     return ret;
 }
 
 error_t RtcpSDESDecoder::decode(RtcpHead &h, BitContext &bc) {
-    static RtcpSDES sd;
     error_t ret = SUCCESS;
 
     for (int i = 0; i < h.cflag; ++i) {
-        sdes.push_back(sd);
-        auto it = sdes.end();
+        sdes.emplace_back();
 
-        if ((ret = it->decode(bc)) != SUCCESS) {
+        if ((ret = sdes.back().decode(bc)) != SUCCESS) {
             sp_error("[rtp@rtcp] sdes decode %dth fail num %d, ret %d", i, (int) h.cflag, ret);
             return ret;
         }
diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.hpp b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
index 1ec72c3..72e6186 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.hpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
@@ -92,15 +92,20 @@ class RtcpRRDecoder : public IRtcpDecoder {
 };
 
 // 6.5 SDES: Source Description RTCP Packet
+struct RtcpSDESItem {
+    uint8_t  item_type;
+    uint8_t  item_length;
+    PCharBuffer item_value;
+};
+
+// one chunk
 class RtcpSDES {
  public:
     RtcpSDES() = default;
     error_t decode(BitContext& bc);
  public:
     uint32_t ssrc;
-    uint8_t  item_type;
-    uint8_t  item_length;
-    PCharBuffer item_value;
+    std::list<RtcpSDESItem> items;
 };
 
 class RtcpSDESDecoder : public IRtcpDecoder {
-- 
2.43.0


From 6f5d235a94372197be200619eee08725224f1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:32 +0000
Subject: [PATCH 55/76] fix: RTCP packets end where their length says, and
 several may share a datagram

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 92 +++++++++++++++--------
 1 file changed, 60 insertions(+), 32 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index 12fd4c4..91e6ee2 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -199,8 +199,14 @@ std::string RtcpSDESDecoder::debug() {
 }
 
 error_t RtcpByteDecoder::decode(RtcpHead &h, BitContext &bc) {
-    // ssrc + length(1byte) + reason for live
-    bc.skip_read_bytes(h.length);
+    // ssrc... + length(1byte) + reason for live
+    error_t ret = bc.acquire(4 * h.cflag);
+
+    if (ret != SUCCESS) {
+        sp_error("[rtp@rtcp] BYE of %d sources, ret %d", (int) h.cflag, ret);
+        return ret;
+    }
+    bc.skip_read_bytes(bc.size());
     return SUCCESS;
 }
 
@@ -210,7 +216,13 @@ std::string RtcpByteDecoder::debug() {
 
 error_t RtcpAppDecoder::decode(RtcpHead &h, BitContext &bc) {
     // ssrc + name(4byte) + application
-    bc.skip_read_bytes(h.length);
+    error_t ret = bc.acquire(8);
+
+    if (ret != SUCCESS) {
+        sp_error("[rtp@rtcp] APP ret %d", ret);
+        return ret;
+    }
+    bc.skip_read_bytes(bc.size());
     return SUCCESS;
 }
 
@@ -219,41 +231,57 @@ std::string RtcpAppDecoder::debug() {
 }
 
 error_t RtcpRtpDecoder::decode(uint8_t *buffer, int size, std::list<PAVPacket> &pkts) {
-    RtcpHeadDecoder dc;
     BitContext bc(buffer, size);
-    error_t ret = dc.decode(bc);
+    error_t ret = SUCCESS;
 
-    if (ret != SUCCESS) {
-        return ret;
-    }
+    // a datagram may consist of several packets
+    do {
+        RtcpHeadDecoder dc;
 
-    PIRtcpDecoder rtcp_dc;
-    switch (dc.header.payload_type) {
-        case RTP_SR:
-            rtcp_dc = std::make_shared<RtcpSRDecoder>();
-            break;
-        case RTP_RR:
-            rtcp_dc = std::make_shared<RtcpRRDecoder>();
-            break;
-        case RTP_SDES:
-            rtcp_dc = std::make_shared<RtcpSDESDecoder>();
-            break;
-        case RTP_BYE:
-            rtcp_dc = std::make_shared<RtcpByteDecoder>();
-            break;
-        case RTP_APP:
-            rtcp_dc = std::make_shared<RtcpAppDecoder>();
-            break;
-        default:
-            sp_error("fatal unknow rtcp payload type %d", dc.header.payload_type);
+        if ((ret = dc.decode(bc)) != SUCCESS) {
+            return ret;
+        }
+
+        // 32-bit words, the head does not count
+        uint32_t len = dc.header.length * 4;
+        if (dc.header.version != 2 || (ret = bc.acquire(len)) != SUCCESS) {
+            sp_error("[rtp@rtcp] version %d, length %u of %lu",
+                     (int) dc.header.version, len, bc.size());
             return ERROR_RTP_PROBE;
-    }
+        }
 
-    if ((ret = rtcp_dc->decode(dc.header, bc)) != SUCCESS) {
-        return ret;
-    }
+        BitContext body(bc.pos(), len);
+        bc.skip_read_bytes(len);
+
+        PIRtcpDecoder rtcp_dc;
+        switch (dc.header.payload_type) {
+            case RTP_SR:
+                rtcp_dc = std::make_shared<RtcpSRDecoder>();
+                break;
+            case RTP_RR:
+                rtcp_dc = std::make_shared<RtcpRRDecoder>();
+                break;
+            case RTP_SDES:
+                rtcp_dc = std::make_shared<RtcpSDESDecoder>();
+                break;
+            case RTP_BYE:
+                rtcp_dc = std::make_shared<RtcpByteDecoder>();
+                break;
+            case RTP_APP:
+                rtcp_dc = std::make_shared<RtcpAppDecoder>();
+                break;
+            default:
+                sp_error("fatal unknow rtcp payload type %d", dc.header.payload_type);
+                return ERROR_RTP_PROBE;
+        }
+
+        if ((ret = rtcp_dc->decode(dc.header, body)) != SUCCESS) {
+            return ret;
+        }
+
+        sp_trace("[rtp@rtcp] pt %d, %s", dc.header.payload_type, rtcp_dc->debug().c_str());
+    } while (bc.size() > 0);
 
-    sp_trace("[rtp@rtcp] pt %d, %s", dc.header.payload_type, rtcp_dc->debug().c_str());
     return ret;
 }
 
-- 
2.43.0


From fa06926e4f1c0e676af2f9dcb4ce10451a3fc47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:32 +0000
Subject: [PATCH 56/76] fix: pass_proxy may name an upstream block

The shipped configurations say 'pass_proxy github;' and define an upstream of
that name, but the name was taken for the address to connect to. An edge host
with an upstream block of its own could not pull at all.
---
 src/module/host/sps_host_module.cpp   | 14 +++++++++++++-
 src/module/host/sps_host_module.hpp   |  1 +
 src/module/stream/sps_stream_edge.cpp |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index 35a275b..ba5c41f 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -131,8 +131,20 @@ std::string HostModule::ssl_cert_file() {
     return host->ssl_crt_file;
 }
 
+std::string HostModule::proxy_server() {
+    if (upstream_module) {
+        return upstream_module->get_server();
+    }
+
+    // the address itself or the name of an upstream block
+    auto proxy = pass_proxy();
+    auto up    = proxy.empty() ? nullptr :
+                 SingleInstance<UpStreamModules>::get_instance().get(proxy);
+    return up ? up->get_server() : proxy;
+}
+
 error_t HostModule::get_proxy_info(std::string& ip, int& port) {
-    auto proxy = upstream_module ? upstream_module->get_server() : pass_proxy();
+    auto proxy = proxy_server();
     auto n     = proxy.find(':', 0);
 
     if (n != std::string::npos) {
diff --git a/src/module/host/sps_host_module.hpp b/src/module/host/sps_host_module.hpp
index e202501..462a73a 100644
--- a/src/module/host/sps_host_module.hpp
+++ b/src/module/host/sps_host_module.hpp
@@ -98,6 +98,7 @@ class HostModule : public IModule {
     std::string role();
     std::string ssl_key_file();
     std::string ssl_cert_file();
+    std::string proxy_server();
     error_t     get_proxy_info(std::string& ip, int& port);
 
  public:
diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index 0da8bf2..41ef544 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -139,7 +139,7 @@ error_t StreamEdgeEnter::start_edge(const std::string& key, PHostModule& host, P
 
     std::string ip;
     int         port       = url->schema == "rtmp" ? 1935 : (url->schema == "https" ? 443 : 80);
-    auto        proxy      = host->pass_proxy();
+    auto        proxy      = host->proxy_server();
     auto        proxy_url  = host->pass_url();
     PStreamEdge edge;
     PRequestUrl proxy_req;
-- 
2.43.0


From bd9f60724e2045a2d5204512f92b682ccf47fea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 57/76] fix: a 404 to a request with a body closes the
 connection

The body was not read and was taken for the next request.
---
 src/module/http/sps_http_phase_handler.cpp        | 6 +++++-
 src/module/http/sps_http_stream_phase_handler.cpp | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 63ad815..334c829 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -77,7 +77,11 @@ error_t Http404PhaseHandler::handler(IConnection& ctx) {
     auto ret = http_socket->write_header();
 
     sp_trace("Response http 404 %d", ret);
-    return SPS_PHASE_SUCCESS_NO_CONTINUE;
+
+    // the body is not read: close, or it would be taken for the next request
+    auto& req = dynamic_cast<HostContext*>(ctx.get_context().get())->req;
+    return req->is_chunked() || req->get_content_length() > 0 ?
+                ERROR_HOST_NOT_EXISTS : SPS_PHASE_SUCCESS_NO_CONTINUE;
 }
 
 }  // namespace sps
diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 6a3ec32..91963a8 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -63,7 +63,9 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
                  ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 404, ret);
-        return ret;
+        // a body is not read: close, or it would be taken for the next request
+        return ctx.req->is_chunked() || ctx.req->get_content_length() > 0 ?
+                    ERROR_STREAM_SOURCE_NOT_EXITS : ret;
     }
 
     return ret;
-- 
2.43.0


From 135fee9687b69ca097f0bd8ba0dac2bbeb4fe42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 58/76] fix: the last parameter of a SRT stream id counts

---
 src/module/srt/sps_srt_server_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 3616603..7554e52 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -67,6 +67,10 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         ++p;
     }
 
+    // nothing follows the last parameter
+    param.value = std::string(start, p-start);
+    params.push_back(param);
+
     std::string url = "";
     std::string mode = "";
     for(auto& p : params) {
-- 
2.43.0


From f947531576fc51e89f115180fe3aa77a81370f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 59/76] fix: what a SRT peer sent before closing is read

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index b1d7769..2a7dbd9 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -635,7 +635,11 @@ error_t SrtStDispatch::handler()  {
                     bool notify = false;
 
                     // error event notify all the socket
-                    if (event.events & StSrtEvent::ST_SRT_ERR) {
+                    // but what arrived before the error is read first
+                    if (cnd->event == StSrtEvent::ST_SRT_IN &&
+                            (event.events & StSrtEvent::ST_SRT_IN)) {
+                        notify = true;
+                    } else if (event.events & StSrtEvent::ST_SRT_ERR) {
                         cnd->err      = err;
                         cnd->err_msg  = err_msg;
                         notify = true;
-- 
2.43.0


From 8849c159e53ed3a4d4dcad89ecf89c2d933fd86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 60/76] fix: SRT read_fully keeps the bytes it has read

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 2a7dbd9..d95257d 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -693,7 +693,7 @@ error_t StSrtSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
     int    ret   = SUCCESS;
     while (n < size) {
         size_t nr = 0;
-        ret       = this->read(buf, size-n, nr);
+        ret       = this->read(reinterpret_cast<char*>(buf) + n, size-n, nr);
         if (ret != SUCCESS) {
             if (nread) {
                 *nread = n;
-- 
2.43.0


From 2b377b6b56fa332ec376554fee2d9cbb909c50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 61/76] fix: the port of a SRT peer is in host order

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index d95257d..3060809 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -797,7 +797,7 @@ PSocket StSrtServerSocket::accept() {
         buf[0] = '\0';  // 防止内存写乱
     }
 
-    return std::make_shared<Socket>(srt_socket, std::string(buf), addr.sin_port);
+    return std::make_shared<Socket>(srt_socket, std::string(buf), ntohs(addr.sin_port));
 }
 
 }
-- 
2.43.0


From 60a2d36138e21394ae74092c7a4dd24675e43787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 62/76] fix: SRT publishing needs a host of role source

---
 src/module/srt/sps_srt_stream_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/srt/sps_srt_stream_handler.cpp b/src/module/srt/sps_srt_stream_handler.cpp
index 9b50580..6d9ae2a 100644
--- a/src/module/srt/sps_srt_stream_handler.cpp
+++ b/src/module/srt/sps_srt_stream_handler.cpp
@@ -56,6 +56,11 @@ error_t SrtServerStreamHandler::publish(IConnection &c) {
     auto cache         = StreamCache::get_streamcache(url);
     error_t     ret    = SUCCESS;
 
+    if (!ctx.host->publish()) {
+        sp_error("host cannot publish %s", url.c_str());
+        return ERROR_STREAM_PUBLISH_NOT_SUPPORT;
+    }
+
     if (cache) {
         sp_error("cannot publish twice %s", url.c_str());
         return ERROR_RTMP_HAS_SOURCE;
-- 
2.43.0


From 382d6cd418a4fa0036607e8ad8361207bc46bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:00 +0000
Subject: [PATCH 63/76] fix: a SRT stream id may name its host with srt://

---
 src/module/srt/sps_srt_server_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/srt/sps_srt_server_handler.cpp b/src/module/srt/sps_srt_server_handler.cpp
index 7554e52..c66ac95 100644
--- a/src/module/srt/sps_srt_server_handler.cpp
+++ b/src/module/srt/sps_srt_server_handler.cpp
@@ -81,7 +81,7 @@ PRequestUrl get_url_by_streamid(const std::string& streamid) {
         }
     }
 
-    if (url.substr(0, 5) != "srt://") {
+    if (url.substr(0, 6) != "srt://") {
         url = "srt://" + url;
     }
 
-- 
2.43.0


From c50fd3f41f07b96d30856e5be1c03b07548c76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 64/76] fix: a SRT socket that broke before it is waited for
 ends its session

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 3060809..92dd4f6 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -550,6 +550,16 @@ int SrtStDispatch::st_srt_epoll(SRTSOCKET fd, StSrtEvent event, utime_t timeout,
         }
     }
 
+    // a socket that broke before it was added is never notified
+    int broken = st_srt_socket_error(srt_getsockstate(fd));
+    if (broken != ERROR_SRT_SOCKET_STATUS_OK) {
+        if (add) {
+            UDT::epoll_remove_usock(srt_eid, fd);
+        }
+        // what it received is read first, reading tells when nothing is left
+        return event == ST_SRT_IN ? SUCCESS : broken;
+    }
+
     // st wait util timeout or notify
     auto cnd = std::make_shared<SrtEventCondition>(event);
     conditions[fd].insert(cnd);
-- 
2.43.0


From b97b212387b5e1584a2b51ecf6c329cbdd894626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 65/76] fix: TLS read_fully keeps the bytes it has read

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 4a43d15..4dde1d0 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -399,7 +399,7 @@ error_t StSSLSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
 
     while (n < size) {
         size_t len = 0;
-        if ((ret = read(buf, size-n, len)) != SUCCESS) {
+        if ((ret = read(reinterpret_cast<char*>(buf) + n, size-n, len)) != SUCCESS) {
             break;
         }
 
-- 
2.43.0


From 5bb2167b73096fb17bc3803f6ea5e010be7c4955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 66/76] fix: TLS clients get the server's certificate where the
 host has none

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 4dde1d0..a535c3a 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -207,6 +207,11 @@ error_t StSSLSocket::accept() {
 
     // TODO: imp sni
     if (cert_searcher) {
+        // the certificate of the server, unless the client asks for a host that has its own
+        if (!config.crt_file.empty() && !config.key_file.empty() &&
+                (ret = do_ssl_verify(config)) != SUCCESS) {
+            return ret;
+        }
         SSL_CTX_set_tlsext_servername_callback(ctx, StSSLSocket::ssl_servername_callback);
     } else {
         if ((ret = do_ssl_verify(config)) != SUCCESS) {
-- 
2.43.0


From 2d708eab3c0e45879506ed1eae0b6c8d97743dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 67/76] fix: a TLS client that does not finish its handshake
 keeps nobody else waiting

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 35 ++++++++++++++++++++++-------
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 17 ++++++++++++++
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index a535c3a..57ea2ea 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -542,6 +542,28 @@ void StSSLServerSocket::push_socket(PSocket sock) {
     condition->signal();
 }
 
+StSSLHandshake::StSSLHandshake(StSSLServerSocket &ssl, PSocket sock) : ssl(ssl) {
+    this->sock = std::move(sock);
+}
+
+error_t StSSLHandshake::handler() {
+    error_t ret   = SUCCESS;
+    auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
+
+    if ((ret = ssl_sock->init()) != SUCCESS) {
+        sp_error("ssl accept ret %d", ret);
+        return ret;
+    }
+
+    ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
+            sock->get_peer_port()));
+    return ret;
+}
+
+void StSSLHandshake::on_stop() {
+    ssl.handshakes.remove_if([this](const PICoHandler& h) { return h.get() == this; });
+}
+
 StSSLAcceptor::StSSLAcceptor(StSSLServerSocket &ssl) : ssl(ssl) {
 }
 
@@ -556,16 +578,13 @@ error_t StSSLAcceptor::handler() {
             continue;
         }
 
-        auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
-
-        // TODO: fixme with threads startup
-        if ((ret = ssl_sock->init()) != SUCCESS) {
-            sp_error("ssl accept ret %d", ret);
+        // a slow client keeps only itself waiting
+        auto shake = std::make_shared<StSSLHandshake>(ssl, sock);
+        if ((ret = ICoFactory::get_instance().start(shake)) != SUCCESS) {
+            sp_error("ssl handshake start ret %d", ret);
             continue;
         }
-
-        ssl.push_socket(std::make_shared<Socket>(ssl_sock, sock->get_peer_ip(),
-                sock->get_peer_port()));
+        ssl.handshakes.push_back(shake);
 
     } while (true);
 
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index 3182731..b06c2e9 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -122,12 +122,14 @@ class StSSLSocket : public IReaderWriter {
 };
 
 class StSSLAcceptor;
+class StSSLHandshake;
 /**
  * ssl server wrapped
  */
 class StSSLServerSocket : public IServerSocket {
  public:
     friend class StSSLAcceptor;
+    friend class StSSLHandshake;
  public:
     StSSLServerSocket(PIServerSocket ssock);
 
@@ -145,11 +147,26 @@ class StSSLServerSocket : public IServerSocket {
     PIServerSocket                  ssock;
     PCondition                      condition;
     std::list<PSocket>              ready_sockets;
+    std::list<PICoHandler>          handshakes;
     std::shared_ptr<StSSLAcceptor>  acceptor;
     SSLConfig                       config;
     PISSLCertSearch                 cert_searcher;
 };
 
+// the handshake of one client
+class StSSLHandshake : public ICoHandler {
+ public:
+    StSSLHandshake(StSSLServerSocket& ssl, PSocket sock);
+
+ public:
+    error_t handler() override;
+    void    on_stop() override;
+
+ private:
+    StSSLServerSocket& ssl;
+    PSocket            sock;
+};
+
 // do tls handshake with async no blocking
 class StSSLAcceptor : public ICoHandler {
  public:
-- 
2.43.0


From bdb3d052149a18c09a4c40c4026c0b1d151ce5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 68/76] fix: TLS keeps what a client sends right after its
 handshake

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 57ea2ea..363be66 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -179,16 +179,6 @@ error_t StSSLSocket::handshake() {
     }
     sp_info("Change Cipher Spec, Encrypted Handshake Message");
 
-    uint8_t* data = nullptr;
-    int     n = 0;
-    if ((n = BIO_get_mem_data(wbio, &data)) > 0) {
-        // OK, reset it for the next read.
-        sp_info("remain for wrote n %d", n);
-        if ((n = BIO_reset(rbio)) != 1) {
-            return ERROR_SSL_HANDSHAKE;
-        }
-    }
-
     return ret;
 
 }
@@ -291,11 +281,8 @@ error_t StSSLSocket::handshake_util_write() {
             return ret;
         }
 
+        // what remains in rbio belongs to the next read
         if (BIO_get_mem_data(wbio, &data) > 0) {
-            // OK, reset it for the next read.
-            if ((n = BIO_reset(rbio)) != 1) {
-                return ERROR_SSL_HANDSHAKE;
-            }
             break;
         }
     }
@@ -328,12 +315,6 @@ error_t StSSLSocket::handshake_util_read() {
 
     sp_info("write ssl handshake(%d) %.*s", n, n, data);
 
-    // for next read
-    if ((ssl_err = BIO_reset(rbio)) != 1) {
-        sp_error("fail reset rio mem for %d", ssl_err);
-        return ERROR_SSL_HANDSHAKE;
-    }
-
     if ((tmp_ret = io->write(data, n)) != SUCCESS) {
         sp_error("fail io read ret %d", tmp_ret);
         return tmp_ret;
-- 
2.43.0


From 3c5821be825d1e03b5605688b7b69df16a3549da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 69/76] fix: a TLS client's errors do not end other TLS
 connections

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 3 +++
 src/sys/st/io/sps_sys_st_io_ssl.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 363be66..1dc0a3e 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -330,6 +330,8 @@ error_t StSSLSocket::handshake_util_read() {
 }
 
 error_t StSSLSocket::do_handshake(bool reading) {
+    // the queue of errors is the thread's, SSL_get_error also finds those of other connections
+    ERR_clear_error();
     int n = SSL_do_handshake(ssl);
 
     if (n == 1) {
@@ -404,6 +406,7 @@ error_t StSSLSocket::read(void* buf, size_t size, size_t& nread) {
 
     do {
         // read decode buffer
+        ERR_clear_error();
         int n  = SSL_read(ssl, buf, size);
         int r2 = BIO_ctrl_pending(rbio);
         int r3 = SSL_is_init_finished(ssl);
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.hpp b/src/sys/st/io/sps_sys_st_io_ssl.hpp
index b06c2e9..24b9c3c 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.hpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.hpp
@@ -28,6 +28,7 @@ SOFTWARE.
 
 #ifdef OPENSSL_ENABLED
 
+#include <openssl/err.h>
 #include <openssl/ssl.h>
 
 #include <memory>
-- 
2.43.0


From 02396e1a4e94e632b448775c6e052936d69e7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:38 +0000
Subject: [PATCH 70/76] fix: what was written before a SRT socket is closed
 still goes out

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 92dd4f6..74b141a 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -112,7 +112,8 @@ SRTSOCKET st_srt_create_fd(StSrtMode mode) {
         srt_setsockflag(fd, SRTO_SNDDROPDELAY, &send_delay, sizeof(send_delay));
         srt_setsockflag(fd, SRTO_TLPKTDROP, &drop, sizeof(drop));
 
-        linger lin = { 3, 0 };
+        // on, for up to 3 seconds: what was written before the close still goes out
+        linger lin = { 1, 3 };
         srt_setsockopt(fd, 0, SRTO_LINGER, &lin, sizeof(lin));
     }
 
-- 
2.43.0


From dddefa3b5c96c6e893ad9e56dc894d330dd825ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 71/76] fix: a UDP socket sends to the peer it was made for

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index f5d42e6..a0355cf 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -110,7 +110,8 @@ StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port,
     this->connected = false;
 
     peer_addr.sin_family        =   AF_INET;
-    peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    peer_addr.sin_addr.s_addr   =   peer_ip.empty() ? htonl(INADDR_ANY) :
+                                        inet_addr(dns_resolve(peer_ip).c_str());
     peer_addr.sin_port          =   htons(peer_port);
 
     int opt = 1;
-- 
2.43.0


From 0f34474a72ab30b8a457913af027cf661a3dd5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 72/76] fix: the UDP server tells peers and its own addresses
 apart

---
 src/sys/st/io/sps_sys_st_io_udp.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index a0355cf..be63b32 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -216,6 +216,15 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
         return ERROR_SOCKET_READ;
     }
 
+    addr2string(&from_addr, peer_ip, peer_port);
+
+    // the address is the one of the packet, the port the one of the socket
+    struct sockaddr_in self_addr;
+    socklen_t self_len = sizeof(self_addr);
+    if (getsockname(st_netfd_fileno(fd->get_fd()), (struct sockaddr*) &self_addr, &self_len) == -1) {
+        return ERROR_SOCKET_READ;
+    }
+
     // iterate through all the control headers
     for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
         cmsg = CMSG_NXTHDR(&msg, cmsg)) {
@@ -228,7 +237,8 @@ error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
         // pi->ipi_spec_dst is the destination in_addr
         // pi->ipi_addr is the receiving interface in_addr
 
-        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
+        self_addr.sin_addr = pi->ipi_addr;
+        addr2string(&self_addr, dst_ip, dst_port);
     }
 
     nread = n;
-- 
2.43.0


From 671e3da3d7773e1acc897db2e3b8628da5a0a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:58 +0000
Subject: [PATCH 73/76] fix: an srt server and a tcp server may have the same
 port number

They were taken for one server: the second was not started and its hosts were
added to the first.
---
 src/module/server/sps_server_module.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index 2db36e6..34bfe76 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -29,7 +29,12 @@ SOFTWARE.
 namespace sps {
 
 bool ServerCompare::operator()(const ServerConfCtx& s1, const ServerConfCtx& s2) const {
-    return s1.listen_port < s2.listen_port;
+    if (s1.listen_port != s2.listen_port) {
+        return s1.listen_port < s2.listen_port;
+    }
+
+    // srt listens on the udp port, everything else on the tcp port of that number
+    return (s1.transport == "srt") < (s2.transport == "srt");
 }
 
 std::map<ServerConfCtx, PServerModule, ServerCompare> ServerModule::server_modules;
-- 
2.43.0


From d6317144c42025e1c047bd0bd533ad1b0e59c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:11 +0000
Subject: [PATCH 74/76] fix: what is written after a file was read to its end
 is no longer lost

The end-of-file state made the stream discard the bytes while write() reported
success.  Lines are counted anew when a file is opened.
---
 src/io/url/sps_io_url_file.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index b230a07..c909651 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -43,6 +43,7 @@ error_t FileURLProtocol::open(PRequestUrl& url, Transport) {
 
 error_t FileURLProtocol::open(const std::string& filename) {
     this->filename = filename;
+    line_num       = 0;
 
     std::ios_base::openmode mode = std::fstream::in | std::fstream::out;
 
@@ -110,8 +111,13 @@ int FileURLProtocol::cur_line_num() {
 }
 
 error_t FileURLProtocol::write(void *buf, size_t size) {
+    // the end was read: what is written now comes behind it
+    if (fh.eof()) {
+        fh.clear();
+    }
+
     fh.write((char*) buf, size);
-    if (fh.bad()) {
+    if (fh.fail()) {
         return ERROR_FILE_WRITE;
     }
     return SUCCESS;
-- 
2.43.0


From 4bcdac386d85c35a693b692707b628bb9c46ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:31 +0000
Subject: [PATCH 75/76] fix: cancelling a subscription works also after another
 subscriber vanished

---
 src/sys/sps_sys_sync.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sys/sps_sys_sync.hpp b/src/sys/sps_sys_sync.hpp
index 88ad2cf..4193a24 100644
--- a/src/sys/sps_sys_sync.hpp
+++ b/src/sys/sps_sys_sync.hpp
@@ -93,10 +93,8 @@ template <class T>
 struct WeakPtrLessThan {
     bool operator()(const std::weak_ptr<T>& lhs,
                    const std::weak_ptr<T>& rhs) const {
-        auto lptr = lhs.lock(), rptr = rhs.lock();
-        if (!rptr) return false;  // nothing after expired pointer
-        if (!lptr) return true;   // every not expired after expired pointer
-        return lptr.get() < rptr.get();
+        // the order must not change when a pointer expires
+        return lhs.owner_before(rhs);
     }
 };
 
-- 
2.43.0


From 76e633c998f4f29c2a08e907db3e079cea1340cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:34 +0000
Subject: [PATCH 76/76] fix: a handler given up before its coroutine runs is
 not used any more

---
 src/sys/st/sps_sys_st_co.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sys/st/sps_sys_st_co.cpp b/src/sys/st/sps_sys_st_co.cpp
index 8bfe8f7..00aa21d 100644
--- a/src/sys/st/sps_sys_st_co.cpp
+++ b/src/sys/st/sps_sys_st_co.cpp
@@ -53,16 +53,19 @@ STCo::STCo(PWICoHandler h) {
 }
 
 error_t STCo::start() {
-    if ((trd = (st_thread_t) st_thread_create(main_co, this,
+    // of its own: this may be gone with its handler before the coroutine runs
+    auto arg = new PWICoHandler(h);
+    if ((trd = (st_thread_t) st_thread_create(main_co, arg,
             0, 0)) == nullptr) {
+        delete arg;
         return ERROR_CO_CREATE;
     }
     return SUCCESS;
 }
 
-void* STCo::main_co(void* co) {
-    auto p = static_cast<STCo*>(co);
-    auto ph = p->h.lock();
+void* STCo::main_co(void* arg) {
+    std::unique_ptr<PWICoHandler> p(static_cast<PWICoHandler*>(arg));
+    auto ph = p->lock();
     if (!ph) {
         return nullptr;
     }
@@ -78,7 +81,7 @@ void* STCo::main_co(void* co) {
 #ifndef ST_THREAD_HAS_CONTEXT_ID
     STContext::get_instance().remove_id();
 #endif
-    return p;
+    return nullptr;
 }
 
 error_t STCoFactory::init() {
-- 
2.43.0

