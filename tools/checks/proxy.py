"""H04: behaviours of Proxy.tla performed on the real server with a scripted upstream."""
import concurrent.futures as cf
import random
import select
import socket
import struct
import time

import build
import tlc
from common import rnd
from e2e import Server, Conn, ServerDied

CONF = """upstream pool {
    server 127.1:@ORIGIN0@;
}
upstream pool2 {
    server 127.0.0.1:@ORIGIN1@;
}
globalhost {
    host g.test {
        type proxy;
        pass_proxy pool;
    }
}
http {
    server web {
        listen_port @PORT0@;
        host a.test {
            type proxy;
            pass_proxy 127.0.0.1:@ORIGIN0@;
        }
        host b.test {
            type proxy;
            pass_proxy pool;
        }
        host dead.test {
            type proxy;
            pass_proxy 127.0.0.1:@ORIGIN1@;
        }
        host dead2.test {
            type proxy;
            pass_proxy pool2;
        }
    }
}
"""
SIZES = [1, 2, 15, 16, 100, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 5000, 20000]
FRAMING = ("content-length", "transfer-encoding")


def head_of(buf):
    """(start line, [(name, value)], rest) or None while incomplete"""
    i = buf.find(b"\r\n\r\n")
    if i < 0:
        return None
    ls = buf[:i].decode("latin1").split("\r\n")
    return ls[0], [(l.partition(":")[0], l.partition(":")[2].strip()) for l in ls[1:]], buf[i + 4:]


def framing_of(hs):
    """"none", ("len", n), "chunked" or an error text"""
    cl = [v for k, v in hs if k.lower() == "content-length"]
    te = [v for k, v in hs if k.lower() == "transfer-encoding"]
    if len(cl) + len(te) > 1:
        return "states its framing %d times: %s" % (len(cl) + len(te), hs)
    if te:
        return "chunked" if te[0].lower() == "chunked" else "unknown coding " + te[0]
    if cl:
        return ("len", int(cl[0])) if cl[0].isdigit() else "bad length " + cl[0]
    return "none"


def dechunk(buf):
    """(body so far, complete, rest) or a text when malformed"""
    body = b""
    while True:
        i = buf.find(b"\r\n")
        if i < 0:
            return (body, False, b"") if len(buf) < 40 else "chunk size line too long %r" % buf[:60]
        size = buf[:i].split(b";")[0].strip()
        try:
            n = int(size, 16)
        except ValueError:
            return "chunk size %r" % size
        if n == 0:
            if len(buf) < i + 4:
                return body, False, b""
            return (body, True, buf[i + 4:]) if buf[i + 2:i + 4] == b"\r\n" else "last chunk %r" % buf[:40]
        if len(buf) < i + 2 + n + 2:
            return body + buf[i + 2:i + 2 + n], False, b""
        if buf[i + 2 + n:i + 4 + n] != b"\r\n":
            return "chunk end %r" % buf[i + 2 + n:i + 4 + n]
        body += buf[i + 2:i + 2 + n]
        buf = buf[i + 4 + n:]


def body_of(hs, rest, nobody, eof, until_close):
    """(body, complete, rest) or text; a body without framing runs until close or is absent"""
    f = framing_of(hs)
    if nobody:
        return b"", True, rest
    if f == "chunked":
        return dechunk(rest)
    if f == "none":
        return (rest, eof, b"") if until_close else (b"", True, rest)
    if isinstance(f, tuple):
        n = f[1]
        return (rest[:n], len(rest) >= n, rest[n:])
    return f


def cut(data, rng, n):
    """data in n parts, some possibly empty"""
    ps = sorted(rng.randrange(len(data) + 1) for _ in range(n - 1))
    return [data[a:b] for a, b in zip([0] + ps, ps + [len(data)])]


class Exchange:
    def __init__(self, e, kind, tag, rng):
        self.e, self.kind, self.rng = e, kind, rng
        self.path = "/%s/e%d/%s" % (tag, e, rng.choice(["", "x", "a.b", "p/q/r.txt", "-_~%20"]))
        self.target = self.path + rng.choice(["", "", "?k=v", "?a=1&b=2&a=3", "?x=%2F..;y", "?q=a=b"])
        self.method = {"head": "HEAD"}.get(kind) or (rng.choice(["POST", "PUT", "POST", "PATCH"]) if kind in ("post", "postc")
                                                     else rng.choice(["GET", "GET", "DELETE", "OPTIONS"]))
        hs = [("X-Tag", tag), ("x-lower", "v %d" % e), ("Accept", "text/html, */*;q=0.8"), ("Cookie", "a=b; c=d"), ("X-Rep", "1"), ("X-Rep", "2"),
              ("User-Agent", "t/1.0 (x; y)"), ("X-Colon", "a:b: c"), ("Referer", "http://q.test/?a=b"), ("X-Long", "L" * rng.choice([10, 300]))]
        rng.shuffle(hs)
        self.headers = hs[:rng.randrange(0, 8)]
        self.body = rng.randbytes(rng.choice(SIZES)) if kind in ("post", "postc") else b""
        if kind == "post" and rng.random() < 0.1:
            self.body = b""
        if rng.random() < 0.2 and self.body:        # a body that looks like a request
            self.body = (b"GET /smuggled HTTP/1.1\r\nHost: a.test\r\n\r\n" * (len(self.body) // 44 + 1))[:max(44, len(self.body))]
        self.rest = None
        self.up = None           # upstream connection
        self.upraw = b""
        self.interims = 0

    def request(self):
        self.host = host = self.rng.choice(["dead.test", "dead2.test"] if self.kind == "dead" else ["a.test", "a.test", "b.test", "g.test"])
        hs = list(self.headers)
        extra = [("Host" if self.rng.random() < 0.7 else "host", host)]
        if self.kind == "post":
            extra.append((self.rng.choice(["Content-Length", "content-length"]), str(len(self.body))))
        elif self.kind == "postc":
            extra.append((self.rng.choice(["Transfer-Encoding", "transfer-encoding"]), "chunked"))
        for x in extra:
            hs.insert(self.rng.randrange(len(hs) + 1), x)
        h = "%s %s HTTP/1.1\r\n%s\r\n" % (self.method, self.target, "".join("%s: %s\r\n" % x for x in hs))
        b = self.body
        if self.kind == "postc":
            parts = [p for p in cut(b, self.rng, self.rng.choice([1, 2, 5])) if p]
            b = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n"
        return h.encode(), b

    def check_upstream(self):
        """what the upstream got: None when right, "..." text when wrong; complete only"""
        h = head_of(self.upraw)
        line, hs, rest = h
        if line != "%s %s HTTP/1.1" % (self.method, self.target):
            return "request line %r instead of %r" % (line, "%s %s HTTP/1.1" % (self.method, self.target))
        f = framing_of(hs)
        if isinstance(f, str) and f not in ("none", "chunked"):
            return "the request " + f
        host = [v for k, v in hs if k.lower() == "host"]
        if host != [self.host]:
            return "host %s" % host
        drop = FRAMING + ("host",) + (() if any(k == "Accept" for k, _ in self.headers) else ("accept",))
        got = [(k, v) for k, v in hs if k.lower() not in drop]
        if got != self.headers:
            return "headers %s instead of %s" % (got, self.headers)
        b = body_of(hs, rest, False, False, False)
        if isinstance(b, str):
            return "request body: " + b
        if b[1] and (b[0] != self.body or b[2]):
            return "request body of %d bytes followed by %d instead of %d" % (len(b[0]), len(b[2]), len(self.body))
        return None

    def upstream_complete(self):
        h = head_of(self.upraw)
        if not h:
            return False
        b = body_of(h[1], h[2], False, False, False)
        return isinstance(b, str) or b[1]

    # ------------------------------------------------------------ the answer
    def plan(self, f, stepwise=False):
        r = self.rng
        self.framing = f
        self.status = r.choice([204, 304]) if f == "none" else r.choice([200, 200, 200, 201, 206, 301, 400, 404, 500, 503])
        hs = [("X-Id", self.path), ("Set-Cookie", "a=1"), ("set-cookie", "b=2"), ("Content-Type", "text/plain"), ("Server", "up/1.0"), ("X-Empty", ""),
              ("ETag", "\"x:y\""), ("X-Long", "R" * r.choice([5, 500]))]
        r.shuffle(hs)
        self.rheaders = hs[:r.randrange(1, 7)]
        self.rbody = r.randbytes(r.choice(SIZES)) if f != "none" else b""
        if r.random() < 0.15 and f != "none":
            self.rbody = b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc" * r.choice([1, 30])
        if f in ("len", "close") and not stepwise and r.random() < 0.1:
            self.rbody = b""
        fr = []
        nobody = self.kind == "head" or f == "none"
        if f == "len" or f == "none" and self.status == 304 and r.random() < 0.5:
            fr = [(r.choice(["Content-Length", "content-length"]), str(len(self.rbody) or (77 if nobody else 0)))]
        elif f == "chunked":
            fr = [(r.choice(["Transfer-Encoding", "transfer-encoding"]), "chunked")]
        hs = list(self.rheaders)
        for x in fr:
            hs.insert(r.randrange(len(hs) + 1), x)
        head = ("HTTP/1.1 %d %s\r\n%s\r\n" % (self.status, r.choice(["OK", "Some Reason", "X"]), "".join("%s: %s\r\n" % x for x in hs))).encode()
        if nobody:
            wire, self.rbody = b"", b""
        elif f == "chunked":
            parts = [p for p in cut(self.rbody, r, r.choice([1, 2, 4])) if p]
            wire = b"".join(b"%s\r\n%s\r\n" % (r.choice([b"%x", b"%X", b"0%x"]) % len(p), p) for p in parts) + b"0\r\n\r\n"
        else:
            wire = self.rbody
        self.rhead, self.wire, self.at = head, wire, 0

    def take(self, how):
        """the next piece, the rest, or a strict part of the rest"""
        left = len(self.wire) - self.at
        if how == "piece":
            n = self.rng.randrange(0, left) if left else 0
        elif how == "cut":
            n = self.rng.choice([0, left - 1, self.rng.randrange(0, left)]) if left else 0
        else:
            n = left
        d = self.wire[self.at:self.at + n]
        self.at += n
        return d

    def check_client(self, line, hs, body, complete):
        p = line.split(" ", 2)
        if p[0] != "HTTP/1.1" or p[1] != str(self.status):
            return "status line %r, the upstream said %d" % (line, self.status)
        drop = FRAMING + (() if any(k == "Server" for k, _ in self.rheaders) else ("server",))
        got = [(k, v) for k, v in hs if k.lower() not in drop]
        if got != self.rheaders:
            return "headers %s instead of %s" % (got, self.rheaders)
        if complete and body != self.rbody:
            return "body of %d bytes instead of %d (first difference at %d)" % (
                len(body), len(self.rbody), next((i for i, (a, b) in enumerate(zip(body, self.rbody)) if a != b), min(len(body), len(self.rbody))))
        if not self.rbody.startswith(body):
            return "body bytes the upstream did not send (%d)" % len(body)
        return None


class Runner:
    conf = CONF

    def __init__(self, exe, seed):
        self.seed, self.serial, self.steps = seed, 0, 0
        self.dead = socket.socket()
        self.dead.bind(("127.0.0.1", 0))
        self.l = socket.socket()
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(64)
        self.srv = Server(exe, self.conf, 1, origin_ports=[self.l.getsockname()[1], self.dead.getsockname()[1]])
        self.srv.start()

    # ------------------------------------------------------------- plumbing
    def connect(self, port):
        return Conn(port)

    def pump(self):
        """the upstream side takes what has arrived"""
        while True:
            r, _, _ = select.select(
                [self.l] + [u["s"] for u in self.ups if not u["eof"]], [], [], 0)
            if not r:
                return
            for s in r:
                if s is self.l:
                    c, _ = s.accept()
                    c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    self.ups.append({"s": c, "buf": b"", "eof": False, "e": None})
                    continue
                u = [x for x in self.ups if x["s"] is s][0]
                try:
                    d = s.recv(1 << 18)
                except OSError:
                    d = b""
                if not d:
                    u["eof"] = True
                u["buf"] += d
                if u["e"] is None and b"\r\n\r\n" in u["buf"]:
                    line = u["buf"].split(b"\r\n")[0].decode("latin1")
                    for x in self.ex.values():
                        if " %s" % x.target + " " in line and x.up is None and x.kind != "dead":
                            u["e"] = x.e
                            x.up = u
                            break
                    else:
                        u["e"] = "unexpected " + line
                if isinstance(u["e"], int):
                    self.ex[u["e"]].upraw = u["buf"]
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)

    def observe(self):
        """what is visible now, as the specification words it, or an error text"""
        seen = []
        for u in self.ups:
            if u["e"] is None:
                continue
            if not isinstance(u["e"], int):
                return None, "the upstream got %s" % u["e"]
            x = self.ex[u["e"]]
            if x.upstream_complete():
                seen.append(x.e)
                m = x.check_upstream()
                if m:
                    return None, "exchange %d at the upstream: %s" % (x.e, m)
        done, partial = {}, {}
        for c, con in self.cli.items():
            done[c] = []
            buf = con.poll()
            asked = list(self.asked[c])
            while buf:
                h = head_of(buf)
                if not h:
                    if not con.eof:
                        partial[c] = buf
                    break
                line, hs, rest = h
                if line[9:10] == "1":
                    buf = rest
                    continue
                if not asked:
                    return None, "client %s got an answer it did not ask for: %s" % (c, line)
                e = asked.pop(0)
                x = self.ex[e]
                if e in self.broken and line[9:10] == "5" and not hasattr(x, "status"):
                    self.erred.add(c)
                    break
                if not hasattr(x, "status"):
                    return None, "exchange %d: client %s is answered %s before the upstream" % (e, c, line)
                nobody = x.kind == "head" or x.status in (204, 304)
                b = body_of(hs, rest, nobody, con.eof, True)
                if isinstance(b, str):
                    return None, "exchange %d: answer %s" % (e, b)
                m = x.check_client(line, hs, b[0], b[1])
                if m:
                    return None, "exchange %d at client %s: %s" % (e, c, m)
                if b[1]:
                    if framing_of(hs) == "none" and not nobody:
                        done[c].append(e)
                        break
                    done[c].append(e)
                    buf = b[2]
                else:
                    break
        return (seen, done), None

    def settle(self, o, clients):
        """until what the specification says is there; then nothing else may follow"""
        want_done = o["done"]
        for k in range(400):
            self.srv.ping()
            self.pump()
            got, err = self.observe()
            if err:
                return err
            seen, done = got
            for e in seen:
                if e not in o["seen"]:
                    return "exchange %d reached the upstream" % e
            for c in clients:
                if done[c] != want_done[c][:len(done[c])]:
                    return "client %s has whole answers to %s, expected %s" % (c, done[c], want_done[c])
            ok = sorted(seen) == sorted(o["seen"]) and all(done[c] == want_done[c] for c in clients) \
                and all(self.cli[c].eof or c in self.erred for c in o["closed"] if c in self.cli)
            if ok:
                for c in clients:
                    if self.cli[c].eof and c not in o["closed"]:
                        return "client %s is disconnected" % c
                return None
            if k > 60:
                time.sleep(0.005)
        return "expected at the upstream %s, answered %s, closed %s; observed %s, %s, %s" % (
            o["seen"], want_done, o["closed"], seen, done, [c for c in clients if self.cli[c].eof])

    def send(self, con, data, rng):
        """in one or several writes with the server running in between"""
        if rng.random() < 0.3 and len(data) > 1:
            for p in cut(data, rng, 3):
                if p:
                    con.send(p)
                    self.srv.ping()
        else:
            con.send(data)

    def usend(self, x, data, rng):
        try:
            parts = cut(data, rng, 3) if rng.random() < 0.3 else [data]
            for p in parts:
                off = 0
                while off < len(p):
                    x.up["s"].setblocking(False)
                    try:
                        off += x.up["s"].send(p[off:])
                    except BlockingIOError:
                        self.srv.ping()
                        for con in self.cli.values():
                            con.poll()
                if len(parts) > 1:
                    self.srv.ping()
        except OSError:
            pass

    def uend(self, x):
        try:
            x.up["s"].shutdown(socket.SHUT_WR)
        except OSError:
            pass

    # ----------------------------------------------------------------- steps
    def run(self, beh):
        self.serial += 1
        self.ups, self.ex, self.cli, self.asked, self.broken, self.erred = [], {}, {}, {}, set(), set()
        gone = []
        try:
            names = sorted(beh[0]["o"]["done"])
            for c in names:
                self.cli[c] = self.connect(self.srv.ports[0])
                self.asked[c] = []
            for i, st in enumerate(beh):
                self.steps += 1
                rng = random.Random(rnd(self.seed, repr([(s["a"], s.get("c"), s.get("e")) for s in beh[:i + 1]]), i))
                self.do(st, rng, gone)
                self.broken = set(st["o"]["broken"])
                clients = [c for c in names if c in self.cli]
                m = self.settle(st["o"], clients)
                if m:
                    return "step %d %s: %s\n  after %s" % (i + 1, {k: v for k, v in st.items() if k != "o"}, m, [
                        {k: v for k, v in s.items() if k != "o"} for s in beh[:i]])
            for _ in range(3):
                self.srv.ping()
            m = self.settle(beh[-1]["o"], [c for c in names if c in self.cli])
            if m:
                return "after the last step: %s" % m
        except ServerDied as e:
            return "step %d: %s" % (i + 1, e)
        finally:
            for c in list(self.cli.values()) + gone:
                c.close()
            for u in self.ups:
                u["s"].close()
            try:
                for _ in range(3):
                    self.srv.ping()
                    self.ups = []
                    self.pump()
                    for u in self.ups:
                        u["s"].close()
            except ServerDied:
                pass
        return None

    def do(self, st, rng, gone):
        a, c, e = st["a"], st["c"], st.get("e")
        if a == "Connect":
            if c in self.cli:
                gone.append(self.cli.pop(c))
            self.cli[c] = self.connect(self.srv.ports[0])
            self.asked[c] = []
            self.erred.discard(c)
            return
        if a in ("Request", "Open"):
            x = self.ex[e] = Exchange(e, st["k"], "b%d" % self.serial, rng)
            self.asked[c].append(e)
            h, b = x.request()
            if a == "Open":
                n = rng.randrange(0, len(b)) if b else 0
                x.rest = b[n:]
                if not b:
                    x.rest, h = h[-2:], h[:-2]
                self.send(self.cli[c], h + b[:n], rng)
            else:
                self.send(self.cli[c], h + b, rng)
            return
        x = self.ex.get(e)
        if a == "Rest":
            self.send(self.cli[c], x.rest, rng)
        elif a == "Interim":
            self.usend(x, rng.choice([b"HTTP/1.1 100 Continue\r\n\r\n", b"HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n", b"HTTP/1.1 102 P\r\nContent-Length: 0\r\n\r\n"]), rng)
        elif a == "Head":
            x.plan(st["f"], True)
            self.usend(x, x.rhead, rng)
        elif a == "Piece":
            self.usend(x, x.take("piece"), rng)
        elif a == "Finish":
            self.usend(x, x.take("rest"), rng)
            if x.framing == "close" or rng.random() < 0.5:
                self.uend(x)
        elif a == "Answer":
            x.plan(st["f"])
            self.usend(x, x.rhead + x.take("rest"), rng)
            if x.framing == "close" or rng.random() < 0.5:
                self.uend(x)
        elif a == "Fail":
            how = st["how"]
            if how == "garbage":
                self.usend(x, rng.choice([b"not http at all\r\n\r\n", b"\x00\x01\x02\xff\r\n\r\n", b"HTTP/1.1 OK\r\n\r\n", b"SSH-2.0-x\r\n\r\n",
                                          b"HTTP/1.1 200 OK\r\nbad header\r\n\r\n", b"A" * 3000]), rng)
            elif how == "cuthead":
                h = b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\nX-A: b\r\n\r\n"
                self.usend(x, h[:rng.randrange(1, len(h) - 1)], rng)
            elif how == "cut":
                self.usend(x, x.take("cut"), rng)
            self.uend(x)
        elif a == "Leave":
            con = self.cli.pop(c)
            if st["how"] == "rst":
                con.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            con.close()
        elif a == "Late":
            if not hasattr(x, "status"):
                x.plan(rng.choice(["len", "chunked", "close"]))
            if x.up is not None:
                self.usend(x, x.rhead + x.take("rest"), rng)
                self.uend(x)

    def close(self):
        self.srv.cleanup()
        self.l.close()
        self.dead.close()


class Factory:
    def __init__(self, exe, seed):
        self.exe, self.seed = exe, seed

    def __call__(self):
        return Runner(self.exe, self.seed)


INV = ("Once", "InOrder", "Apart", "OnlySeen", "NeverWhole", "OneAtATime")
BASE = dict(Clients={"c1"}, Kinds={"get", "head", "post", "postc", "dead"}, Framings={"len", "chunked", "close", "none"},
            MaxEx=2, MaxQueue=1, MaxPiece=1, Interims=0, Partials=False, Reconnect=False, MaxHist=99)


def cover(cfg):
    c = dict(BASE, **cfg)
    return tlc.run("ProxyGen", tlc.cfg_text(c, view="GView", invariants=INV, properties=("Others",), action_constraint="Emit"))


def simulate(cfg, num, depth, seed):
    c = dict(BASE, **cfg)
    c["MaxHist"] = depth
    return tlc.run("ProxyGen", tlc.cfg_text(c, invariants=INV, action_constraint="EmitEnd"), simulate=num, depth=depth + 1, seed=seed)


def h04(ctx):
    q = ctx.quick
    covers = [("one client", dict(Interims=1, Partials=True, Reconnect=not q)),
              ("two clients", dict(Clients={"c1", "c2"}, Kinds={"get", "post"}, Framings={"len", "chunked"}, MaxEx=2, MaxPiece=1)),
              ("a queue", dict(Kinds={"get", "post", "dead"}, Framings={"len", "none"}, MaxEx=3, MaxQueue=2))]
    sims = [("random, two clients", dict(Clients={"c1", "c2"}, MaxEx=9, MaxPiece=3, Interims=2, Partials=True, Reconnect=True, MaxQueue=2), 400 if q else 2000, 18),
            ("random, three clients", dict(Clients={"c1", "c2", "c3"}, Kinds={"get", "head", "post", "postc"}, MaxEx=14, MaxPiece=2, Interims=1, Partials=True, Reconnect=True),
             200 if q else 1000, 30)]
    cap = 4000 if q else 60000
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build.build, "drv_spsd", "plain")
        fs = [(n, ex.submit(cover, c), False) for n, c in covers]
        fs += [(n, ex.submit(simulate, c, num, d, ctx.seed + i), True) for i, (n, c, num, d) in enumerate(sims)]
        fac = Factory(fb.result(), ctx.seed)
        for n, f, sim in fs:
            r = ctx.model(n, f.result())
            behs = tlc.thin(r.behaviours) if sim else tlc.prune_prefixes(r.behaviours)
            random.Random(rnd(ctx.seed, n)).shuffle(behs)
            if not ctx.replay(n, behs[:cap], fac):
                return


def replay(ctx, rec):
    r = Runner(build.build("drv_spsd", "plain"), rec["seed"])
    try:
        for c in rec["cases"]:
            m = r.run(c)
            if m:
                print(m)
                print("VIOLATION property=%s replay=given" % ctx.prop)
                return 1
    finally:
        r.close()
    print("the behaviour is as specified")
    return 0
