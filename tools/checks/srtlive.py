"""S08: behaviours of Srt.tla performed on the real server, with real SRT callers."""
import concurrent.futures as cf
import random
import time

import build
import e2e
import srt
import tlc
from common import rnd
from e2e import Conn, FLV_HEADER, Server, ServerDied, FlvStream

HOST = """
        host %s.test {
            role %s;
            type %s;
            pass_proxy 127.0.0.1:1;
            edge_avformat all;
        }
"""
HOSTS = "".join(HOST % x for x in (("src", "source", "stream"), ("edge", "edge", "stream"), ("proxy", "proxy", "proxy")))
CONF = "http {\n    server live {\n        listen_port @PORT0@;\n%s    }\n}\nsrt {\n    server call {\n        listen_port @PORT0@;\n        transport srt;\n%s    }\n}\n" % (HOSTS, HOSTS)


class Wrong(Exception):
    pass


def crc32(b):
    c = 0xffffffff
    for x in b:
        c ^= x << 24
        for _ in range(8):
            c = ((c << 1) ^ 0x04c11db7 if c & 0x80000000 else c << 1) & 0xffffffff
    return c.to_bytes(4, "big")


def section(b):
    return b"\0" + b + crc32(b)


PAT = section(bytes.fromhex("00b00d0001c100000001f000"))
PMT = section(bytes.fromhex("02b0170001c10000e100f0001be100f0000fe101f000"))


class Mux:
    """a publisher's transport stream"""

    def __init__(self, r):
        self.r, self.cc, self.pts = r, {}, r.randrange(1 << 20)
        self.pkts, self.nals = {}, {}

    def body(self, n):
        return bytes(self.r.choices(range(2, 256), k=n))

    def packet(self, pid, pusi, pay, fill=False):
        n = self.cc[pid] = self.cc.get(pid, self.r.randrange(16)) + 1 & 15
        s = 184 - len(pay)
        h = bytes([0x47, (0x40 if pusi else 0) | pid >> 8, pid & 255])
        if fill:
            return h + bytes([0x10 | n]) + pay + b"\xff" * s
        if s == 0:
            return h + bytes([0x10 | n]) + pay
        return h + bytes([0x30 | n]) + (bytes([s - 1]) + (b"\0" + b"\xff" * (s - 2) if s > 1 else b"")) + pay

    def make(self, kind, i):
        r = self.r
        if kind == "pat":
            p = self.packet(0, True, PAT, r.random() < .5)
        elif kind == "pmt":
            p = self.packet(0x1000, True, PMT, r.random() < .5)
        elif kind == "start":
            self.pts += r.randrange(90, 9000)
            t = self.pts
            stamp = bytes([0x21 | t >> 29 & 0xe, t >> 22 & 255, 1 | t >> 14 & 0xfe, t >> 7 & 255, 1 | t << 1 & 0xfe])
            nal = b"\x65" + self.body(r.randrange(1, 150))
            p = self.packet(0x100, True, b"\0\0\1\xe0\0\0\x80\x80\x05" + stamp + r.choice((b"\0\0\1", b"\0\0\0\1")) + nal)
            self.nals[i] = (t // 90, nal)
        elif kind == "cont":
            nal = self.body(r.choice((184, r.randrange(1, 184))))
            p = self.packet(0x100, False, nal)
            self.nals[i] = (None, nal)
        elif kind == "null":
            p = b"\x47\x1f\xff\x10" + b"\xff" * 184
        else:
            p = self.packet(0x555, r.random() < .5, self.body(184))
        self.pkts[i] = p
        return p


def messages(b, r):
    """the bytes in messages"""
    how = r.choice((1316, 1316, 188, 0))
    out = []
    while b:
        n = how or r.choice((1, r.randrange(1, 188), r.randrange(1, 1317), 1315))
        out.append(b[:n])
        b = b[n:]
    return out


class Runner:
    conf, ports = CONF, 1

    def __init__(self, exe, seed):
        self.seed, self.steps, self.serial = seed, 0, 0
        self.n = dict(calls=0, packets=0)
        self.srv = Server(exe, self.conf, self.ports)
        self.fresh()

    def fresh(self):
        self.down = None
        try:
            self.srv.start()
            self.base, self.count = self.srv.count(), 0
        except ServerDied as e:
            self.down = str(e)

    def info(self):
        return self.n

    def close(self):
        self.srv.cleanup()

    def web(self):
        """a connection for HTTP"""
        return Conn(self.srv.ports[0])

    def pump(self, pred, what):
        # (the library notices a lost farewell after 5 seconds)
        for k in range(450):
            self.srv.advance(10)
            m = pred()
            if m is True:
                return
            time.sleep(.001 if k < 10 else .005 if k < 40 else .02)
        raise Wrong("%s%s" % (what, ": " + m if m else ""))

    def path(self, nm):
        return ("live%d/%s", "live%d/x.%s")[self.serial % 2] % (self.serial, nm)

    def sid(self, mode, nm, host="src.test"):
        r = self.r
        ps = ["m=" + mode] + r.sample(["r=res", "u=me", "s=123", "t=stream", "x="], r.randrange(3))
        if host:
            ps.append("h=%s%s/%s" % (r.choice(("", "", "srt://")), host, self.path(nm)))
        r.shuffle(ps)
        return "#!::" + ",".join(ps)

    def call(self, sid):
        self.n["calls"] += 1
        c = srt.SrtConn(self.srv.ports[0], sid)
        c.want, c.got, c.lens = b"", b"", []
        # the library loses what follows an answered handshake at once
        time.sleep(.025)
        return c

    def dead(self, c):
        if c.eof:
            pass
        elif isinstance(c, Conn):
            c.poll()
        else:
            c.poll()
            if c.msgs:
                c.got += b"".join(c.msgs)
                c.lens += [len(m) for m in c.msgs]
                c.msgs.clear()
        return c.eof

    def run(self, case):
        self.serial += 1
        ops = case["ops"]
        self.r = random.Random(rnd(self.seed, case.get("n", 0), [(o["a"], o["c"], str(o["x"])) for o in ops]))
        self.at = {}
        said = ""
        if self.down:
            return self.down
        try:
            for i, op in enumerate(ops):
                said = "step %d %s by %s (%s %s): " % (i + 1, op["a"], op["c"], op["n"], op["x"])
                self.perform(op)
                self.check(op)
                self.steps += 1
            said = "at the end: "
            time.sleep(.002)
            self.srv.advance(10)
            self.check(ops[-1], False)
            self.finish()
            return None
        except srt.Refused as e:
            said += "no SRT connection: %s" % e
        except (Wrong, ServerDied) as e:
            said += str(e)
        for c in self.at.values():
            c.close()
        self.srv.stop()
        self.fresh()
        return said

    def finish(self):
        for c in self.at.values():
            c.close()
        def quiet():
            n = self.srv.count() - self.base
            if n:
                return "%d sessions" % n
            m = [self.status(nm, False) for nm in ("a", "b")]
            return all(x is True for x in m) or str(m)
        self.srv.advance(11000)
        self.pump(quiet, "after everybody left")
        self.count = 0

    def status(self, nm, taken):
        """a taken name is not published again, and one that is free not played"""
        c = Conn(self.srv.ports[0])
        try:
            c.send(("%s /%s.flv HTTP/1.1\r\nHost: src.test\r\n\r\n" % ("POST" if taken else "GET", self.path(nm))).encode() + (FLV_HEADER if taken else b""))
            for k in range(100):
                self.srv.ping()
                c.poll()
                if c.buf[9:12] == b"404" or c.eof:
                    return True
                if c.buf:
                    break
                time.sleep(.002)
            return "%s is %s" % (nm, "free" if taken else "taken")
        finally:
            c.reset()

    def perform(self, op):
        a, c, nm, r = op["a"], op["c"], op["n"], self.r
        old = self.at.get(c)
        if a in ("publish", "play", "refused"):
            if c == "w":
                k = self.web()
                k.send(("POST /%s.flv HTTP/1.1\r\nHost: src.test\r\n\r\n" % self.path(nm)).encode() + FLV_HEADER)
            elif c == "v":
                k = self.web()
                k.send(("GET /%s.flv HTTP/1.1\r\nHost: src.test\r\n\r\n" % self.path(nm)).encode())
                k.flv, k.tags, k.want, k.head = FlvStream(), [], [], False
            else:
                x = op["x"]
                sid = {"short": r.choice(("", "#!::", "m=", "#!")), "nohost": self.sid(r.choice(("publish", "request")), "a", r.choice(("other.test", "", "test", "xsrc.test"))),
                       "role": self.sid("publish", "a", r.choice(("edge.test", "proxy.test")))}.get(x) if a == "refused" else self.sid("publish" if a == "publish" else "request", nm)
                k = self.call(sid)
                k.mux = Mux(r)
            self.at[c] = k
        elif a.startswith("put"):
            how = a[3:]
            b = b"".join(old.mux.make(k, op["first"] + i) for i, k in enumerate(op["x"]))
            self.n["packets"] += len(op["x"])
            if how == "bad":
                b += r.choice((b"\0", b"\x46", b"\x47\x1f\xff\x10" + b"\xff" * 183)) + b"\0" * 188 * 2
            for m in messages(b, r):
                old.send(m)
            t = time.time()
            while old.unsent() and time.time() - t < 3 and old.state() == srt.CONNECTED:
                time.sleep(.001)
            if how == "gap":
                self.srv.gap(old.close, 10)
            elif how != "end":
                self.srv.advance(10)
                self.srv.advance(10)
            else:
                old.close()
            if how in ("end", "gap"):
                del self.at[c]
        elif a == "end":
            old.close() if c not in ("v", "w") or r.random() < .5 else old.reset()
            del self.at[c]
        elif a == "tick":
            self.srv.advance(11000)

    def check(self, op, add=True):
        pub = self.at.get(op["c"]) if not op["a"].startswith("put") else None
        src = op["c"]
        for c, out in op["out"].items():
            if not out or not add:
                continue
            k = self.at[c]
            if c == "v":
                k.want += [self.unit(op["n"], u) for u in out]
            else:
                k.want += b"".join(self.pkt(op["n"], i) for i in out)
        self.keep(op)
        def right():
            for c, k in list(self.at.items()):
                if c == "v" and k.buf[9:12] == b"404" and not k.head:
                    k.close()
                    k.eof = True
                d = self.dead(k) or (c == "v" and k.eof)
                if d != (c in op["closed"]):
                    return "%s is %s" % (c, "closed" if d else "still connected")
                if c == "v":
                    m = self.viewer(k, op)
                    if m:
                        return m
                elif c != "w" and k.got != k.want:
                    return "%s has received %s, expected %s" % (c, self.names(k.got), self.names(k.want))
            # one that has not been served yet, or that is not over yet
            n = self.srv.count() - self.base
            low, high = len(op["on"]), len(op["on"]) + op["left"]
            if not add:
                low = high = self.count
            elif op["a"] in ("publish", "play", "refused"):
                # nothing makes the server notice now that others have left
                low = high = self.count + (op["c"] in op["on"])
            if not low <= n <= high:
                return "%d sessions, expected %d to %d" % (n, low, high)
            for nm in ("a", "b") if op["a"] != "play" else ():
                m = self.status(nm, nm in op["taken"])
                if m is not True:
                    return m
            self.now = n
            return True
        self.pump(right, "")
        self.count = self.now
        for c in op["closed"]:
            if c in self.at:
                self.at[c].close()
                del self.at[c]

    # packets of the publisher of a name, also when it has gone
    def keep(self, op):
        self.muxes = getattr(self, "muxes", {})
        if op["a"] == "publish" and not op["closed"] and op["c"] != "w":
            self.muxes[op["n"]] = self.at[op["c"]].mux

    def pkt(self, nm, i):
        return self.muxes[nm].pkts[i]

    def unit(self, nm, ids):
        m = self.muxes[nm].nals
        nal = b"".join(m[i][1] for i in ids)
        return (9, m[ids[0]][0], b"\x17\x01\0\0\0" + len(nal).to_bytes(4, "big") + nal)

    def names(self, b):
        every = {p: i for m in self.muxes.values() for i, p in m.pkts.items()}
        return [every.get(b[i:i + 188], "?") for i in range(0, len(b), 188)]

    def viewer(self, k, op):
        if not k.head:
            if b"\r\n\r\n" not in k.buf:
                return "the viewer is not answered"
            s = k.buf[9:12]
            k.head, k.ok = True, s == b"200"
            k.buf = k.buf[k.buf.find(b"\r\n\r\n") + 4:] if k.ok else b""
        want = "v" not in op["closed"] or op["a"] == "tick"
        if k.ok != want:
            return "the viewer is answered %s" % ("200" if k.ok else "404")
        if k.ok:
            k.tags += k.flv.feed(k.buf)
            k.buf = b""
            if k.flv.error:
                return "the viewer receives %s" % k.flv.error
            if k.tags != k.want:
                return "the viewer has received %s, expected %s" % ([(t[1], len(t[2])) for t in k.tags], [(t[1], len(t[2])) for t in k.want])
        return None


class Factory:
    def __init__(self, exe, seed):
        self.exe, self.seed = exe, seed

    def __call__(self):
        return Runner(self.exe, self.seed)


INV = ("Single", "Holder", "Alive", "Whole", "Ordered")
IDS = {"short", "nohost", "role"}


def model(cs, names, web, menu, ids, ops, sim=None, seed=None):
    c = dict(C={"c%d" % (i + 1) for i in range(cs)}, N=set(names), Web=web, Menu=set(menu), Ids=set(ids), MaxOps=ops)
    if sim:
        return tlc.run("Srt", tlc.cfg_text(c, spec="Spec", invariants=INV, action_constraint="EmitEnd"), simulate=sim, depth=ops + 1, seed=seed, workers=1)
    return tlc.run("Srt", tlc.cfg_text(c, spec="Spec", invariants=INV, view="GView", action_constraint="Emit"), workers=1)


def s08(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(6) as ex:
        exe = ex.submit(build.build, "drv_spsd", "san")
        stages = [("two callers, one name", ex.submit(model, 2, "a", False, {1, 2, 3, 4, 5}, IDS, 6)),
                  ("a caller, a publisher and a viewer over HTTP", ex.submit(model, 1, "a", True, {2, 3, 4, 5}, {"role"}, 6)),
                  ("three callers, two names", ex.submit(model, 3, "ab", False, {4, 5}, {"nohost"}, 5)),
                  ("tables in any order", ex.submit(model, 2, "a", False, set(range(1, 11)), set(), 6))]
        sim = ex.submit(model, 4, "ab", True, set(range(1, 11)), IDS, 25, 60 if q else 2000, ctx.seed)
        f = Factory(exe.result(), ctx.seed)
        for n, m in stages:
            r = ctx.model(n, m.result())
            behs = sorted(tlc.prune_prefixes([b["ops"] for b in r.behaviours]), key=lambda b: rnd(ctx.seed, str(b)))
            if not ctx.replay(n, [{"ops": b} for b in behs[:250 if q else 5000]], f):
                return
        r = ctx.model("four callers at random", sim.result())
        # of each run, one of its possible last steps
        one = {str(b["ops"][:-1]): b["ops"] for b in sorted(r.behaviours, key=lambda b: rnd(ctx.seed, str(b)))}
        ctx.replay("four callers at random", [{"ops": b} for b in one.values()], f)


def replay(ctx, rec):
    r = Runner(build.build("drv_spsd", "san"), rec["seed"])
    try:
        for c in rec["cases"]:
            m = r.run(c)
            if m:
                print(m)
                print("VIOLATION property=%s replay=given" % ctx.prop)
                return 1
    finally:
        r.close()
    print("the behaviour is as specified")
    return 0
