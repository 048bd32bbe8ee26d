"""N03: behaviours of Hostile.tla performed on the real server beside an undisturbed exchange."""
import concurrent.futures as cf
import json
import os
import random
import re
import resource
import socket
import time

import build
import e2e
import tlc
from common import rnd
from e2e import Conn, FLV_HEADER, Server, ServerDied, FlvStream, flv_body, flv_tag, http_head

CONF = """
http {
    server live {
        listen_port @PORT0@;
        host src.test {
            role source;
            type stream;
            edge_avformat all;
        }
        host edge.test {
            role edge;
            type stream;
            pass_proxy 127.0.0.1:@ORIGIN0@;
            edge_avformat flv;
        }
        host proxy.test {
            role proxy;
            type proxy;
            pass_proxy 127.0.0.1:@ORIGIN0@;
        }
    }
}
"""
FMT = "Q7%s%n%d%08x%p%s%n7Q"
JUNK = [b"\0" * 40, b"\x16\x03\x01\x02\0\x01\0\x01\xfc\x03\x03" + b"\x11" * 60, b"\xff\xfe\xfd", b"SSH-2.0-x", b"GEX / HTTP/1.1", b"GET\0/ HTTP/1.1",
        b"{\"a\":1}", b"GET / HTTP/1.1\r\n\x01bad: x", b"\x03" + bytes(range(200)), ("%s" % FMT).encode(), b"12345 / HTTP/1.1"]


class Wrong(Exception):
    pass


def chunk(b):
    return b"%x\r\n" % len(b) + b + b"\r\n"


class Hostile:
    def __init__(self, name):
        self.name, self.c, self.up, self.rest, self.style, self.prev, self.left = name, None, None, b"", "raw", 0, b""

    def drop(self):
        for c in (self.c, self.up):
            if c:
                c.close()
        self.c = self.up = None


class Runner:
    def __init__(self, exe, seed, room=None):
        self.exe, self.seed, self.room, self.steps = exe, seed, room, 0
        self.n = dict(probes=0, log_lines=0, directives_logged=0)
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(64)
        self.l.setblocking(False)
        self.srv = Server(exe, CONF, 1, origin_ports=[self.l.getsockname()[1]])
        self.serial = 0
        self.start()

    def info(self):
        return self.n

    def start(self):
        os.environ["SPS_LOG"] = "1"
        os.environ["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=0"
        self.srv.start()
        self.read = 0
        self.port = self.srv.ports[0]
        self.pub, self.player, self.flv = Conn(self.port), Conn(self.port), FlvStream()
        self.prev, self.sent, self.got = 0, 0, 0
        self.pub.send(b"POST /live/canary.flv HTTP/1.1\r\nHost: src.test\r\n\r\n" + FLV_HEADER)
        self.srv.ping()
        self.player.send(b"GET /live/canary.flv HTTP/1.1\r\nHost: src.test\r\n\r\n")
        self.srv.ping()
        self.off = None
        self.packet()
        self.base = self.srv.nfds()
        if self.room is not None:
            fds = {int(x) for x in os.listdir("/proc/%d/fd" % self.srv.proc.pid)}
            n, free = 0, 0
            while free < self.room:
                free += n not in fds
                n += 1
            resource.prlimit(self.srv.proc.pid, resource.RLIMIT_NOFILE, (max(n, max(fds) + 1), resource.prlimit(self.srv.proc.pid, resource.RLIMIT_NOFILE)[1]))

    # ---- the exchange that must not notice
    def body(self, n):
        return flv_body("key", b"canary %d " % n + b"z" * (n * 37 % 1500))

    def packet(self):
        """the canary publishes a packet and its player gets it"""
        self.sent += 1
        t = flv_tag("key", self.sent * 40, self.body(self.sent))
        self.pub.send(self.prev.to_bytes(4, "big") + t)
        self.prev = len(t)
        for k in range(400):
            self.srv.ping()
            self.player.poll()
            if self.off is None and b"\r\n\r\n" in self.player.buf:
                self.off = 0
                self.player.buf = self.player.buf[self.player.buf.find(b"\r\n\r\n") + 4:]
            if self.off is not None:
                ts = self.flv.feed(self.player.buf)
                self.player.buf = b""
                for t in ts:
                    self.got += 1
                    if t != (9, self.got * 40, self.body(self.got)):
                        raise Wrong("the undisturbed player's packet %d is another one: %r" % (self.got, str(t)[:200]))
            if self.flv.error or self.player.eof or self.pub.poll() or self.pub.eof:
                raise Wrong("the undisturbed %s is disturbed: %s" % ("player" if self.player.eof or self.flv.error else "publisher", self.flv.error or "closed"))
            if self.got == self.sent:
                return
            if k > 40:
                time.sleep(.005)
        raise Wrong("the undisturbed player does not get packet %d" % self.sent)

    def wait(self, c, pred, what):
        for k in range(400):
            self.srv.ping()
            c.poll()
            if pred(c):
                return
            if c.eof:
                break
            if k > 40:
                time.sleep(.005)
        raise Wrong("%s (%s, received %r)" % (what, "closed" if c.eof else "open", c.buf[:120]))

    def accept(self):
        try:
            s, _ = self.l.accept()
        except BlockingIOError:
            return None
        s.setblocking(True)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c = Conn.__new__(Conn)
        c.s, c.buf, c.eof, c.sent_error = s, b"", False, False
        return c

    def upstream(self, path):
        """the upstream connection on which path is asked for"""
        for k in range(400):
            self.srv.ping()
            c = self.accept()
            if c:
                self.wait(c, lambda c: b"\r\n\r\n" in c.buf, "an upstream is not asked for anything")
                if c.buf.split(b" ")[1] != path.encode():
                    raise Wrong("the upstream is asked for %r instead of %r" % (c.buf[:80], path))
                return c
            if k > 40:
                time.sleep(.005)
        raise Wrong("the upstream is not asked for %s" % path)

    def probe(self, op, r):
        """somebody else asks for something"""
        kind = r.choice(("gone", "proxy", "join", "name", "name"))
        self.n["probes"] += 1
        c = Conn(self.port)
        try:
            if kind == "proxy":
                p = "/probe%d" % r.randrange(1 << 30)
                c.send(("GET %s HTTP/1.1\r\nHost: proxy.test\r\n\r\n" % p).encode())
                u = self.upstream(p)
                b = b"answer to " + p.encode()
                u.send(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(b) + b)
                self.wait(c, lambda c: c.buf.endswith(b"\r\n\r\n" + b) and c.buf.startswith(b"HTTP/1.1 200"), "a proxied request of somebody else is not answered")
                u.close()
                return
            want = b"404"
            path = "/live/nobody%d.flv" % r.randrange(1 << 30)
            if kind == "join":
                path, want = "/live/canary.flv", b"200"
            if kind == "name":
                hs = op["live"] + op["free"]
                if hs:
                    h = r.choice(hs)
                    path = self.own(h)
                    if h in op["live"]:         # taken: nobody else may publish it
                        c.send(("POST %s HTTP/1.1\r\nHost: src.test\r\n\r\n" % path).encode() + r.choice((b"", FLV_HEADER)))
                        self.wait(c, lambda c: c.eof, "a second publisher of %s is not refused" % path)
                        return
            c.send(("GET %s HTTP/1.1\r\nHost: src.test\r\n\r\n" % path).encode())
            self.wait(c, lambda c: b"\r\n\r\n" in c.buf, "the request of somebody else for %s is not answered" % path)
            if c.buf[9:12] != want:
                raise Wrong("somebody else asks for %s: expected %s, observed %r" % (path, want.decode(), c.buf[:60]))
            if kind == "join":
                head = FLV_HEADER + b"\0\0\0\0" + flv_tag("key", self.sent * 40, self.body(self.sent))
                self.wait(c, lambda c: c.buf[c.buf.find(b"\r\n\r\n") + 4:] == head, "somebody who joins the undisturbed stream does not get its last packet")
        finally:
            c.reset()

    # ---- the hostile acts
    def own(self, h):
        return "/live/own%d_%s.flv" % (self.serial, h)

    def perform(self, op, r):
        a, h, c = op["a"], self.hs[op["h"]], op["c"]
        key = ("%s %s" % (a, c)).strip()
        self.n[key] = self.n.get(key, 0) + 1
        if a == "tick":
            for _ in range(2):
                self.srv.advance(6000)
                self.packet()
            return
        getattr(self, "do_" + a)(h, c, op, r)

    def do_connect(self, h, c, op, r):
        h.c = Conn(self.port)

    def gone(self, r):
        host, path = "src.test", "/live/%s.flv" % r.choice(("x", FMT, "a" * 900, "..", "%00", "\xe9\xff", "x?y=" + FMT, "'\";--"))
        if r.random() < .3:
            host, path = r.choice((FMT, "no.where", "x" * 300, "-")), "/" + r.choice(("", FMT, "x.flv", "?" + FMT))
        hd = r.choice(("", "%s: %s\r\n" % (r.choice(("X-A", "User-Agent")), FMT), "".join("H%d: v\r\n" % i for i in range(50)), "Cookie: %s\r\n" % ("c" * 700)))
        return "%s %s HTTP/1.%d\r\n%sHost: %s\r\n" % (r.choice(("GET", "GET", "DELETE", "OPTIONS", "PUT")), path, 1, hd, host)

    def do_say(self, h, c, op, r):
        k = h.c
        if c == "part":
            b = (self.gone(r) + "\r\n").encode("latin1")
            n = r.randrange(1, len(b))
            h.rest = b[n:]
            k.send(b[:n])
        elif c == "rest":
            k.send(h.rest)
            self.answer(k, b"404")
        elif c == "junk":
            k.send(r.choice(JUNK) + b"\r\n\r\n")
        elif c == "long":
            k.send(b"" if op["was"] == "part" else b"GET /")
            k.send(r.choice((b"a" * 2500, b"a" * 70000, b"%n%s" * 700)))
        elif c == "gone":
            k.send((self.gone(r) + "\r\n").encode("latin1"))
            self.answer(k, b"404")
        elif c == "body":
            b = b"GET /live/smuggled.flv HTTP/1.1\r\nHost: src.test\r\n\r\n" * r.choice((1, 3))
            host, path, m = r.choice((("no.where", "/x", "POST"), ("src.test", "/live/x.flv", "GET"), ("no.where", "/live/x.flv", "PUT")))
            if r.random() < .5:
                k.send(("%s %s HTTP/1.1\r\nHost: %s\r\nContent-Length: %d\r\n\r\n" % (m, path, host, len(b))).encode() + b)
            else:
                k.send(("%s %s HTTP/1.1\r\nHost: %s\r\nTransfer-Encoding: chunked\r\n\r\n" % (m, path, host)).encode() + chunk(b) + b"0\r\n\r\n")
            self.wait(k, lambda c: c.eof, "a refused request with a body leaves the connection open")
            if k.buf.count(b"HTTP/1.1") > 1:
                raise Wrong("the body of a refused request is answered as a request: %r" % k.buf[:200])
        elif c == "dup":
            k.send(("POST /live/canary.%s HTTP/1.1\r\nHost: src.test\r\n\r\n" % r.choice(("flv", "ts", "flv?x=1"))).encode() + r.choice((b"", FLV_HEADER, b"G" * 188)))
        elif c == "play":
            k.send(b"GET /live/canary.flv HTTP/1.1\r\nHost: src.test\r\n\r\n")
            self.wait(k, lambda c: c.buf.startswith(b"HTTP/1.1 200"), "an existing stream is not played")
        elif c == "upload":
            h.style = r.choice(("raw", "chunked", "cl"))
            hd = {"raw": "", "chunked": "Transfer-Encoding: chunked\r\n", "cl": "Content-Length: 1999999999\r\n"}[h.style]
            h.prev, h.left = 0, b""
            k.send(("POST %s HTTP/1.1\r\nHost: src.test\r\n%s\r\n" % (self.own(h.name), hd)).encode() + self.data(h, FLV_HEADER))
        elif c in ("good", "tiny", "bad"):
            b, h.left = h.left, b""
            kind = r.choice(("key", "script", "audio", "inter", "ah", "vh"))
            t = flv_tag(kind, r.randrange(1 << 32), flv_body(kind, r.randbytes(r.choice((1, 10, 3000, 60000)))))
            t = h.prev.to_bytes(4, "big") + t
            h.prev = len(t) - 4
            if c == "tiny":
                n = r.randrange(1, len(t))
                t, h.left = t[:n], t[n:]
            if c == "bad":
                p = h.prev.to_bytes(4, "big")
                t = r.choice((p + b"\x63\0\0\x05" + b"\0" * 7 + b"abcde", p + b"\x09\0\0\x02" + b"\0" * 7 + b"\x17\x01", p + b"\x09\xff\xff\xff" + b"\0" * 7 + b"\x17" * 3000))
                if h.style == "chunked" and r.random() < .4:
                    k.send(self.data(h, b) if b else b"")
                    k.send(r.choice((b"zz\r\n", b"-1\r\n", b"fffffffffffffffffff\r\n", b"\r\n\r\n\r\n", b"5\r\nabcdeXX")) + b"\r\n\r\n")
                    return
            k.send(self.data(h, b + t))
        elif c == "more":
            k.send(r.choice(JUNK) + b"\r\n\r\n")
        else:
            p = "/live/%s%d_%s.flv" % (c, self.serial, r.randrange(1 << 30))
            k.send(("GET %s HTTP/1.1\r\nHost: %s.test\r\n\r\n" % (p, "proxy" if c == "proxy" else "edge")).encode())
            if op["to"] in ("wait", "pull"):
                h.up = self.upstream(p)

    def data(self, h, b):
        return chunk(b) if h.style == "chunked" else b

    def do_up(self, h, c, op, r):
        u = h.up
        ok = b"HTTP/1.1 200 OK\r\n"
        if c == "junk":
            u.send(r.choice([j for j in JUNK]) + b"\r\n\r\n")
        elif c == "long":
            u.send(ok + r.choice((b"X: " + b"a" * 3000, b"".join(b"H%d: %s\r\n" % (i, FMT.encode()) for i in range(200)))))
        elif c == "cut":
            b = ok + b"Content-Length: 5\r\nX: " + FMT.encode() + b"\r\n\r\n"
            u.send(b[:r.randrange(len(b))])
            self.srv.ping()
            u.close()
        elif c == "rst":
            u.reset()
        elif c == "no":
            u.send(("HTTP/1.1 %d %s\r\nX: %s\r\nContent-Length: 0\r\n\r\n" % (r.choice((500, 404, 302, 403, 999)), FMT, FMT)).encode())
        elif c == "short":
            u.send(ok + b"Content-Length: %d\r\n\r\n" % r.choice((100, 1 << 31, 1 << 62)) + b"only this")
            self.srv.ping()
            u.close()
        elif c == "badchunk":
            u.send(ok + b"Transfer-Encoding: chunked\r\n\r\n" + r.choice((b"zz\r\n", b"5\r\nabcdefgh\r\n", b"-5\r\n", b"ffffffffffffffffffffff\r\n")) + b"\r\n\r\n")
        elif c == "ok":
            b = r.randbytes(r.choice((0, 1, 5000, 200000)))
            u.send(ok + b"Content-Length: %d\r\n\r\n" % len(b) + b)
            if op["to"] == "fresh":
                self.wait(h.c, lambda c: http_head(c.buf) is not None and http_head(c.buf)[2] == b, "a correct answer of the upstream does not arrive")
                h.c.buf = b""
        elif c == "notflv":
            u.send(ok + b"\r\n" + r.choice((b"XLV" + b"\0" * 300, r.randbytes(5000), b"\0" * 100000)))
            self.srv.ping()
        elif c == "badtag":
            u.send(ok + b"\r\n" + FLV_HEADER + b"\0\0\0\0" + flv_tag("key", 1, flv_body("key", b"first")) + b"\0\0\0\x15" + b"\x63\0\0\x05" + b"\0" * 7 + b"abcde")
            self.srv.ping()
        if op["was"] == "pull" and op["to"] == "fresh":
            self.answer(h.c, b"404")
        # the upstream has done its part
        for k in range(3):
            self.srv.ping()
        if h.up.s.fileno() >= 0:
            h.up.close()
        h.up = None

    def answer(self, k, status):
        self.wait(k, lambda c: b"\r\n\r\n" in c.buf, "no answer %s" % status.decode())
        if k.buf[9:12] != status:
            raise Wrong("expected %s, observed %r" % (status.decode(), k.buf[:80]))
        k.buf = b""

    def do_end(self, h, c, op, r):
        if c == "half":
            h.c.shut_wr()
            return
        h.c.reset() if c == "rst" else h.c.close()
        h.c = None
        if h.up:
            self.srv.ping()
            h.up.reset() if r.random() < .5 else h.up.close()
            h.up = None

    # ---- a behaviour
    def run(self, case):
        self.serial += 1
        ops = case["ops"]
        r = random.Random(rnd(self.seed, case.get("n", 0), [(o["a"], o["h"], o["c"]) for o in ops]))
        self.hs = {h: Hostile(h) for h in ("h1", "h2", "h3", "h4")}
        said = ""
        try:
            for i, op in enumerate(ops):
                said = "step %d %s by %s: " % (i + 1, (op["a"] + " " + op["c"]).strip(), op["h"])
                self.perform(op, r)
                self.steps += 1
                self.after(op, r)
            said = "at the end: "
            for h in self.hs.values():
                h.drop()
            self.settle()
            self.count(0, 0)
            m = self.look()
            if m:
                return m
        except (Wrong, ServerDied) as e:
            said += str(e)
            for h in self.hs.values():
                h.drop()
            self.restart()
            return said
        return None

    def settle(self):
        for _ in range(2):
            self.srv.advance(20 if self.room is not None else 6000)
            self.packet()

    def restart(self):
        for c in (self.pub, self.player):
            c.close()
        while True:
            c = self.accept()
            if not c:
                break
            c.close()
        self.srv.stop()
        self.start()

    def after(self, op, r):
        self.srv.ping()
        if self.room is not None:
            self.srv.advance(20)        # the acceptor tries again
        if op["a"] != "tick" and op["to"] == "shut" and op["was"] != "shut" and op["a"] != "end":
            c = self.hs[op["h"]].c
            self.wait(c, lambda c: c.eof, "the server does not close the connection")
        if self.room is None and not op["line"]:
            self.probe(op, r)
        self.packet()
        self.packet()
        self.count(op["lo"], op["hi"])

    def count(self, lo, hi):
        n = 0
        for k in range(200):
            n = self.srv.nfds() - self.base
            if lo <= n <= hi:
                return
            self.srv.ping()
            if k > 20:
                time.sleep(.005)
            if self.room is not None:
                self.srv.advance(20)        # one that left before it was accepted comes first
        raise Wrong("the server holds %d descriptors for the hostile ones, expected %s" % (n, lo if lo == hi else "%d to %d" % (lo, hi)))

    def look(self):
        """what clients sent is logged as it is"""
        try:
            with open(os.path.join(self.srv.workdir, "log"), "rb") as f:
                f.seek(self.read)
                b = f.read()
        except OSError:
            return None
        cut = b.rfind(b"\n") + 1
        b = b[:cut]
        self.read += cut
        self.n["log_lines"] += b.count(b"\n")
        for m in re.finditer(b"Q7", b):
            # (a long message is cut short; what was cut in two may go on with something else)
            if not re.match(rb"Q7(%|a|\[|\. \(|\r|\n|$)", b[m.start():m.start() + 10]):
                return "what a client sent is interpreted in the log: %r" % b[max(0, m.start() - 80):m.start() + 120]
            self.n["directives_logged"] += 1
        return None

    def close(self):
        self.srv.quit()
        self.look()
        for c in (self.pub, self.player):
            c.close()
        self.l.close()
        self.srv.cleanup()


class Factory:
    def __init__(self, exe, seed, room=None):
        self.exe, self.seed, self.room = exe, seed, room

    def __call__(self):
        return Runner(self.exe, self.seed, self.room)


INV = ("TypeOK", "Freed", "Bounded")
DOORS = {"play", "upload", "dup", "proxy", "pull", "gone", "body"}


def model(hs, doors, ops, room=99, ticks=True, sim=None, seed=None):
    c = dict(H={"h%d" % (i + 1) for i in range(hs)}, Doors=set(doors), Room=room, Ticks=ticks, MaxOps=ops)
    if sim:
        return tlc.run("Hostile", tlc.cfg_text(c, spec="Spec", invariants=INV, action_constraint="EmitEnd"), simulate=sim, depth=ops + 1, seed=seed, workers=1)
    return tlc.run("Hostile", tlc.cfg_text(c, spec="Spec", invariants=INV, properties=("Apart",), view="GView", action_constraint="Emit"), workers=1)


class MemRunner(Runner):
    """the same behaviour over and over: what is allocated does not grow"""
    rounds = (8, 16, 32, 64, 128, 256)

    def run(self, case):
        last, grown, k = None, 0, 0
        for n in self.rounds:
            while k < n:
                m = Runner.run(self, dict(case, n=0))
                if m:
                    return m
                k += 1
            at = self.srv.mem()
            if last is not None:
                grown = at - last
                if grown <= 24 * (n // 2):      # less than the smallest allocation every time
                    self.n["rounds"] = self.n.get("rounds", 0) + n
                    return None
            last = at
        return "allocated memory grows without end when the same behaviour is repeated: by %d bytes from round %d to round %d" % (grown, self.rounds[-2], self.rounds[-1])


class MemFactory(Factory):
    def __call__(self):
        return MemRunner(self.exe, self.seed, self.room)


def n03(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(6) as ex:
        fs = [ex.submit(build.build, "drv_spsd", "san"), ex.submit(build.build, "drv_spsd", "plain")]
        one = ex.submit(model, 1, DOORS, 6)
        two = ex.submit(model, 2, DOORS, 5)
        tight = [("three clients, room for two descriptors, uploads", 2, ex.submit(model, 3, {"gone", "upload"}, 7, 2, False)),
                 ("three clients, room for two descriptors, upstreams", 2, ex.submit(model, 3, {"gone", "proxy", "pull"}, 6, 2, False))]
        sim = ex.submit(model, 4, DOORS, 25, 99, True, 120 if q else 3000, ctx.seed)
        san, plain = fs[0].result(), fs[1].result()
        san = Factory(san, ctx.seed)
        r = ctx.model("one hostile client", one.result())
        behs = [{"ops": b} for b in tlc.prune_prefixes([b["ops"] for b in r.behaviours])]
        behs = [dict(b, n=k) for k in range(2 if q else 12) for b in behs]
        if not ctx.replay("one hostile client, every transition", behs, san):
            return
        r = ctx.model("two hostile clients", two.result())
        behs = sorted(tlc.prune_prefixes([b["ops"] for b in r.behaviours]), key=lambda b: rnd(ctx.seed, str(b)))
        if not ctx.replay("two hostile clients", [{"ops": b} for b in behs[:700 if q else None]], san):
            return
        r = ctx.model("four hostile clients at random", sim.result())
        if not ctx.replay("four hostile clients at random", [{"ops": b["ops"]} for b in r.behaviours], san):
            return
        for n, room, f in tight:
            r = ctx.model(n, f.result())
            behs = sorted(tlc.prune_prefixes([b["ops"] for b in r.behaviours]), key=lambda b: rnd(ctx.seed, str(b)))
            if not ctx.replay(n, [{"ops": b} for b in behs[:400 if q else 8000]], Factory(plain, ctx.seed, room), extra={"room": room}):
                return
        r = model(1, DOORS, 4)
        behs = [b for b in tlc.prune_prefixes([b["ops"] for b in r.behaviours]) if len(b) > 1]
        ctx.replay("the same behaviour over and over", [{"ops": b} for b in behs], MemFactory(plain, ctx.seed), extra={"mem": True})


def replay(ctx, rec):
    mem = rec.get("mem")
    r = (MemRunner if mem else Runner)(build.build("drv_spsd", "plain" if mem or rec.get("room") else "san"), rec["seed"], rec.get("room"))
    try:
        for c in rec["cases"]:
            m = r.run(c)
            if m:
                print(m)
                print("VIOLATION property=%s replay=given" % ctx.prop)
                return 1
    finally:
        r.close()
    print("the behaviour is as specified")
    return 0
