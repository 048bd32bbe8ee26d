"""Performs behaviours of Live.tla on the real server and compares observations."""
import hashlib
import os
import select
import socket
import struct
import time

from e2e import Server, Conn, ServerDied, FlvStream, FLV_HEADER, TAG, flv_tag, flv_body, http_head

CONF = """
comment core;
upstream origin {
    server 127.0.0.1:@ORIGIN0@;
}
http {
    server live {
        listen_port      @PORT0@;
        transport        tcp;

        host src.test {
            role           source;
            type           stream;
            edge_avformat  all;
        }

        host edge.test {
            role           edge;
            type           stream;
            pass_proxy     origin;
            edge_avformat  flv;
        }
    }
}
"""


QUERIES = ["", "?x=1", "?k=v&start=0.flv", "?a=1&&b=&c&", "?x=%2Fa.b;y=+&z=/q?r"]


class Mismatch(Exception):
    pass


def rnd(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


class Rig:
    """a server with a scripted upstream"""

    def __init__(self, exe, conf=CONF):
        self.lsock = socket.socket()
        self.lsock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.lsock.bind(("127.0.0.1", 0))
        self.lsock.listen(256)
        self.lsock.setblocking(False)
        self.srv = Server(exe, conf, 1, origin_ports=[self.lsock.getsockname()[1]])
        self.srv.start()

    def restart(self):
        self.srv.stop()
        self.srv.start()

    def connect(self, port, replay, rcvbuf=None):
        return Conn(port, rcvbuf)

    def accept(self):
        try:
            s, _ = self.lsock.accept()
        except BlockingIOError:
            return None
        s.setblocking(True)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c = Conn.__new__(Conn)
        c.s, c.buf, c.eof, c.sent_error = s, b"", False, False
        return c

    def close(self):
        self.lsock.close()
        self.srv.cleanup()


class PubConn:
    def __init__(self, conn, style):
        self.conn = conn
        self.style = style
        self.prev = 0
        self.seen = 0
        self.closed = False

    def data(self, b):
        return (b"%x\r\n" % len(b)) + b + b"\r\n" if self.style == "chunked" else b

    def events(self):
        ev = []
        self.conn.poll()
        if len(self.conn.buf) > self.seen:
            ev.append("bytes:%r" % self.conn.buf[self.seen:][:60])
            self.seen = len(self.conn.buf)
        if self.conn.eof and not self.closed:
            self.closed = True
            ev.append("closed")
        return ev


class PlConn:
    def __init__(self, conn):
        self.conn = conn
        self.flv = FlvStream()
        self.status = None
        self.off = 0
        self.said = False
        self.closed = False
        self.done = False
        self.stalled = False
        self.part = None

    def collapse(self, x):
        """a packet of the specification may stand for a run of real ones"""
        if not isinstance(x, tuple):
            return [x]
        n, j, k = x
        want = self.part
        if want is None and j == 0 or want == (n, j):
            self.part = (n, j + 1) if j + 1 < k else None
            return [n] if j + 1 == k else []
        self.part = None
        return ["packet %d of run %d (expected %s)" % (j + 1, n, want)]

    def events(self, ident):
        ev = []
        if self.stalled or self.done:
            return ev
        c = self.conn
        c.poll()
        if self.status is None:
            h = http_head(c.buf)
            if h:
                self.status = h[0]
                self.off = c.buf.find(b"\r\n\r\n") + 4
                if self.status != 200:
                    ev.append(str(self.status))
                    self.done = True
                    return ev
        if self.status == 200:
            had = self.flv.header
            new = c.buf[self.off:]
            self.off = 0
            c.buf = b""
            tags = self.flv.feed(new)
            if self.flv.header and not had:
                ev.append("200")
            for t in tags:
                ev += self.collapse(ident(t))
            if self.flv.error and not self.said:
                self.said = True
                ev.append("malformed:" + self.flv.error)
        if c.eof and not self.closed:
            self.closed = True
            if self.flv.buf:
                ev.append("partial:%d" % len(self.flv.buf))
            if self.part:
                ev.append("run %d cut off before packet %d" % (self.part[0], self.part[1] + 1))
            ev.append("closed")
        return ev


SIZES = [1, 2, 3, 7, 16, 100, 255, 256, 1000, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 70001]
BIG = [200000, 400000, 700001]


class Replay:
    def __init__(self, rig, seed=1, block=1):
        self.rig = rig
        self.block = block      # real packets per non-key media packet of the specification
        self.seed = seed
        self.serial = 0
        self.steps = 0

    def run(self, beh):
        self.serial += 1
        self.h = rnd(self.seed, [(s["a"], s.get("k"), s.get("s"), s.get("how")) for s in beh])
        self.tag = "b%d_%x" % (self.serial, self.h & 0xffff)
        self.pubs, self.pls, self.ups, self.pkt = {}, {}, {}, {}
        self.byident = {}
        self.big = any(s["a"] == "Stall" for s in beh)
        self.i = 0
        self.held = False
        try:
            for i, st in enumerate(beh):
                self.i = i
                self.step(st)
                self.steps += 1
        except Mismatch as m:
            return "step %d %s: %s" % (self.i + 1, {k: v for k, v in beh[self.i].items() if k != "ev"}, m)
        except ServerDied as e:
            return "step %d %s: %s" % (self.i + 1, {k: v for k, v in beh[self.i].items() if k != "ev"}, e)
        finally:
            for c in list(self.pubs.values()) + list(self.pls.values()):
                c.conn.close()
            for c in self.ups.values():
                c.conn.close()
            while True:
                c = self.rig.accept()
                if not c:
                    break
                c.close()
            try:
                if self.rig.srv.alive():
                    self.rig.srv.ping()
                    self.rig.srv.advance(11000)     # idle players let go of their sockets
            except ServerDied:
                pass
        return None

    # ---- concretisation
    def packet(self, n, kind):
        r = rnd(self.h, n, kind)
        size = BIG[r % len(BIG)] if self.big else SIZES[r % len(SIZES)]
        if not self.big and r % 5 == 0:
            size = 1 + (r >> 8) % 3000
        ts = [n * 40, 0xfffff0 + n, 0x1000000 * (1 + n) + 5, 0x7fffff00 + n, 0, 0xffffff00 + n][(r >> 20) % 6]
        cts = [0, 80, -40, 0x7fffff, -0x800000, 1][(r >> 28) % 6] if kind in ("key", "inter", "vh") else 0
        payload = (hashlib.blake2b(b"%d %d" % (self.h & 0xffffffff, n)).digest() * (size // 64 + 1))[:size]
        payload = payload[:size - 1] + bytes([n & 0xff])
        body = flv_body(kind, payload, cts)
        if kind == "audio" and r % 7 == 0:
            body = b"\xa2" + body[1:]
        if kind in ("key", "inter") and r % 11 == 0:      # H.265
            body = bytes([body[0] & 0xf0 | 12]) + body[1:]
        return ts, body

    def ident(self, t):
        return self.byident.get(t) or "unknown-packet:type=%d,ts=%d,len=%d" % (t[0], t[1], len(t[2]))

    def host(self, s):
        return "edge.test" if s.startswith("e") else "src.test"

    def path(self, s):
        # names that share their beginning, up to a dot or a slash, or their end
        return ("/live/%s_%s", "/live/%s.%s", "/%s/live/%s.v1", "/live/%s/x-%s")[rnd(self.tag) % 4] % ((self.tag, s) if rnd(self.tag) % 8 < 4 else (s, self.tag))

    def small(self, n, kind, m):
        """packet m of the run that stands for packet n"""
        size = 4000 if self.big else 8 + (n * 7 + m) % 40
        return n * 1000 + m, flv_body(kind, (b"%d.%d." % (n, m)).ljust(size, b"x"))

    def wire(self, conn, ks, n0):
        out = []
        for j, k in enumerate(ks):
            n = n0 + j
            run = self.block if k in ("inter", "audio") else 1
            for m in range(run):
                ts, body = self.packet(n, k) if run == 1 else self.small(n, k, m)
                t = flv_tag(k, ts, body)
                if (TAG[k], ts & 0xffffffff, body) in self.byident:
                    raise Exception("two packets look alike")
                self.byident[(TAG[k], ts & 0xffffffff, body)] = n if run == 1 else (n, m, run)
                out.append(struct.pack(">I", conn.prev) + t)
                conn.prev = len(t)
        out = b"".join(out)
        r = rnd(self.h, "split", n0)
        if conn.style == "chunked":
            k = 1 + r % 3
            cuts = sorted({0, len(out)} | {rnd(self.h, n0, "c", i) % len(out) for i in range(k - 1)})
            parts = [conn.data(out[a:b]) for a, b in zip(cuts, cuts[1:])]
            out = b"".join(parts)
        mode = (r >> 8) % 4
        if mode == 0 and len(out) > 2 and not self.held:
            cut = 1 + (r >> 16) % (len(out) - 1)
            conn.conn.send(out[:cut])
            self.rig.srv.ping()
            conn.conn.send(out[cut:])
        else:
            conn.conn.send(out)

    def send_pumped(self, conn, data):
        conn.send(data)

    # ---- one step
    def step(self, st):
        self.perform(st)
        self.rig.srv.ping()
        self.observe(st)

    def pause(self):
        if not self.held:
            self.rig.srv.ping()

    def query(self, st, r):
        return QUERIES[(r >> 8) % len(QUERIES)]

    def perform(self, st):
        a = st["a"]
        srv = self.rig.srv
        port = srv.ports[0]
        if a == "PubStart":
            r = rnd(self.h, self.i, "pub")
            style = ["raw", "chunked", "cl"][r % 3]
            c = PubConn(self.rig.connect(port, self), style)
            c.ext = st["e"]
            self.pubs[st["c"]] = c
            q = ["", "?a=1", "?token=x.y&b=2"][(r >> 8) % 3]
            hd = {"raw": "", "chunked": "Transfer-Encoding: chunked\r\n", "cl": "Content-Length: 2000000000\r\n"}[style]
            req = "POST %s.%s%s HTTP/1.1\r\nHost: %s\r\n%s\r\n" % (self.path(st["s"]), st["e"], q, self.host(st["s"]), hd)
            body = c.data(FLV_HEADER) if st["e"] == "flv" else b""
            if (r >> 16) % 3 == 0:
                c.conn.send(req.encode())
                self.pause()
                c.conn.send(body)
            else:
                c.conn.send(req.encode() + body)
        elif a == "PubSend":
            self.wire(self.pubs[st["c"]], st["k"], st["n"])
        elif a == "PubEnd":
            c = self.pubs[st["c"]]
            how = st["how"]
            if how == "fin":
                c.conn.close()
                del self.pubs[st["c"]]
            elif how == "rst":
                c.conn.reset()
                del self.pubs[st["c"]]
            elif how == "half":
                if c.style == "chunked" and rnd(self.h, self.i) % 2:
                    c.conn.send(b"0\r\n\r\n")
                else:
                    c.conn.shut_wr()
            elif how == "bad":
                bad = b"\0" * 376 if c.ext == "ts" else struct.pack(">I", c.prev) + b"\x63\0\0\x05" + b"\0" * 7 + b"abcde"
                c.conn.send(c.data(bad))
        elif a == "Play":
            r = rnd(self.h, self.i, "play")
            old = self.pls.pop(st["p"], None)
            if old is not None and old.done and r % 2 == 0 and not old.conn.eof and not old.conn.poll()[old.off:]:
                conn = old.conn           # keep-alive: ask again on the same connection
                conn.buf = b""
            else:
                if old is not None:
                    old.conn.close()
                conn = self.rig.connect(port, self, (2304 if self.block == 1 else 32768) if self.big else None)
            self.pls[st["p"]] = PlConn(conn)
            q = self.query(st, r)
            req = "GET %s.flv%s HTTP/1.1\r\nHost: %s\r\nUser-Agent: t\r\n\r\n" % (self.path(st["s"]), q, self.host(st["s"]))
            conn.send(req.encode())
            self.lastq = q
        elif a == "Leave":
            c = self.pls.pop(st["p"])
            if st["how"] == "rst":
                c.conn.reset()
            else:
                c.conn.close()
        elif a == "Stall":
            self.pls[st["p"]].stalled = True
        elif a == "Resume":
            self.pls[st["p"]].stalled = False
        elif a == "UpAnswer":
            u = self.ups[st["s"]]
            r = rnd(self.h, self.i, "up")
            u.style = ["raw", "chunked", "cl"][r % 3]
            hd = {"raw": "", "chunked": "Transfer-Encoding: chunked\r\n", "cl": "Content-Length: 2000000000\r\n"}[u.style]
            head = ("HTTP/1.1 200 OK\r\nServer: up\r\n%s\r\n" % hd).encode()
            if (r >> 8) % 3 == 0:
                u.conn.send(head)
                self.pause()
                u.conn.send(u.data(FLV_HEADER))
            else:
                u.conn.send(head + u.data(FLV_HEADER))
        elif a == "UpRefuse":
            u = self.ups.pop(st["s"])
            if st["how"] == "drop":
                u.conn.close()
            else:
                u.conn.send(("HTTP/1.1 %s Nope\r\nContent-Length: 0\r\nLocation: /x\r\n\r\n" % st["how"]).encode())
                self.pause()
                u.conn.close()
        elif a == "UpSend":
            self.wire(self.ups[st["s"]], st["k"], st["n"])
        elif a == "UpEnd":
            u = self.ups.pop(st["s"])
            if st["how"] == "rst":
                u.conn.reset()
            else:
                u.conn.close()
        elif a == "Tick":
            srv.advance(st["d"] * 100)
        else:
            raise Exception("unknown action " + a)

    def collect_up(self, got):
        while True:
            c = self.rig.accept()
            if not c:
                return
            c.wait(lambda c: b"\r\n\r\n" in c.buf, 2.0)
            h = c.buf
            line = h.split(b"\r\n")[0].decode("latin1")
            name = None
            parts = line.split(" ")
            if len(parts) == 3 and parts[0] == "GET":
                for s in ("e1", "e2", "e3"):
                    if parts[1] == self.path(s) + ".flv" + getattr(self, "lastq", ""):
                        name = s
            got["up"].append(name or "request:%s" % line)
            if name:
                self.ups[name] = PubConn(c, "raw")
            else:
                c.close()

    def observe(self, st):
        exp = st["ev"]
        got = {c: [] for c in exp}
        deadline = None
        while True:
            for n, c in self.pubs.items():
                got[n] += c.events()
            for n, c in self.pls.items():
                got[n] += c.events(self.ident)
            self.collect_up(got)
            if got == exp:
                break
            # late data is possible; something else is not
            ok = all(len(got[c]) <= len(exp[c]) and got[c] == exp[c][:len(got[c])] for c in exp)
            if not ok:
                break
            now = time.time()
            if deadline is None:
                deadline = now + (6.0 if self.big or self.block > 1 else 1.5)
            if now > deadline:
                break
            self.rig.srv.ping()
            if now > deadline - 1.0:
                time.sleep(0.005)
        if got != exp:
            diff = {c: {"expected": exp[c], "observed": got[c]} for c in exp if exp[c] != got[c]}
            raise Mismatch("; ".join("%s expected %s observed %s" % (c, d["expected"], d["observed"]) for c, d in diff.items()))
        for n in [n for n, c in self.pubs.items() if c.closed]:
            self.pubs.pop(n).conn.close()
        for n in [n for n, c in self.pls.items() if c.closed]:
            self.pls.pop(n).conn.close()
