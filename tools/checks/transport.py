"""N02: behaviours of Tls.tla performed on the real server; those of Live.tla and
Proxy.tla once more, over TLS."""
import concurrent.futures as cf
import os
import random
import time

import build
import live
import srt
from checks import proxy, srtlive, streaming
import tlc
from common import rnd
from e2e import Conn, Server, ServerDied
from tls import TlsConn

KEYS = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "harness", "tls")


def cert(n):
    return "\n".join("%s %s/%s.%s;" % (k, KEYS, n, e) for k, e in (("ssl_key_file", "key"), ("ssl_crt_file", "crt"))) + "\n" if n else ""


def secure(conf, n="server"):
    """the first server of the configuration speaks TLS"""
    c = conf.replace("transport        tcp;\n", "", 1)
    return c.replace("listen_port ", cert(n) + "transport https;\nlisten_port ", 1)


HOST = "host %s.test {\nrole source;\ntype stream;\nedge_avformat all;\n%s}\n"
SRV = "server %s {\nlisten_port @PORT%d@;\ntransport https;\n%s%s}\n"
CONF = "http {\n" + SRV % ("own", 0, cert("server"), "".join(HOST % (n, cert(c)) for n, c in (("one", "one"), ("bare", ""), ("two", "two")))) \
    + SRV % ("named", 1, "", "".join(HOST % (n, cert(c)) for n, c in (("bare", ""), ("one", "one")))) + "}\n"
ASK = b"GET /live/%d.flv HTTP/1.1\r\nHost: one.test\r\n%s\r\n"


class Wrong(Exception):
    pass


class Runner:
    def __init__(self, exe, seed):
        self.seed, self.steps = seed, 0
        self.n = dict(connections=0, handshakes=0, answers=0)
        self.srv = Server(exe, CONF, 2)
        self.fresh()

    def fresh(self):
        self.srv.start()
        self.base = self.srv.nfds()

    def info(self):
        return self.n

    def close(self):
        self.srv.cleanup()

    def run(self, case):
        ops = case["ops"]
        self.r = random.Random(rnd(self.seed, [(o["a"], str(o.get("c")), str(o.get("w"))) for o in ops]))
        self.at, self.held = {}, False
        try:
            for i, op in enumerate(ops):
                each = sorted(op["each"], key=lambda o: rnd(self.seed, i, o["c"])) if op["a"] == "many" else [op]
                said = "step %d %s: " % (i + 1, " and ".join("%s by %s (%s)" % (o["a"], o["c"], o["w"]) for o in each))
                if op["a"] == "many":
                    self.srv.ping()
                    self.srv.hold()
                    self.held = True
                for o in each:
                    self.perform(o)
                if self.held:
                    time.sleep(.002)
                    self.srv.go()
                    self.held = False
                self.check(each, op["on"])
                self.steps += 1
            for c in list(self.at):
                self.at.pop(c).close()
            said = "after everybody left: "
            self.settle(lambda: self.sockets(0))
            return None
        except (Wrong, ServerDied) as e:
            said += str(e)
        for c in self.at.values():
            c.close()
        self.srv.stop()
        self.fresh()
        return said

    def sockets(self, n):
        k = self.srv.nfds() - self.base
        return True if k == n else "the server holds %d connections, expected %d" % (k, n)

    def settle(self, pred):
        for k in range(400):
            self.srv.ping()
            m = pred()
            if m is True:
                return
            if k > 40:
                time.sleep(.005)
        raise Wrong(m)

    def deal(self, c, n=None):
        """(the first n bytes of) the flight, in one or more writes"""
        r = self.r
        if n is None:
            n = len(c.flight)
        k = r.choice((1, 1, 2, 3, 10)) if n > 1 else 1
        cuts = sorted({r.randrange(1, n) for _ in range(k - 1)} | {n}) if n else []
        o = 0
        for x in cuts:
            c.go(x - o)
            o = x
            if r.random() < .7 and not self.held:
                self.srv.ping()

    def ask(self, n=1):
        r = self.r
        return b"".join(ASK % (r.randrange(1000), r.choice((b"", b"User-Agent: x\r\n", b"X-Long: " + b"a" * r.randrange(1200) + b"\r\n"))) for _ in range(n))

    def put(self, c, data):
        """encodes data, in one record or more"""
        r = self.r
        cuts = sorted({r.randrange(1, len(data)) for _ in range(r.choice((0, 0, 1, 3)) if len(data) > 1 else 0)} | {len(data)})
        o = 0
        for x in cuts:
            c.encode(data[o:x])
            o = x

    def perform(self, op):
        a, r = op["a"], self.r
        if a == "open":
            w = op["w"]
            self.n["connections"] += 1
            c = self.at[op["c"]] = TlsConn(self.srv.ports[0 if w["port"] == "own" else 1], sni=w["name"] and w["name"] + ".test", start=False, fast=w["fast"])
            c.answers, c.rest = 0, b""
            return
        c = self.at[op["c"]]
        c.was = c.answers
        if a == "part":
            if op["p"] == "up1":
                # some of a request: some of its bytes, or some of its record's
                b = self.ask()
                if r.random() < .5:
                    n = r.randrange(1, len(b))
                    self.put(c, b[:n])
                    c.rest = b[n:]
                else:
                    self.put(c, b)
            # (of a request that is in several records, the last one is not complete)
            n = len(c.flight)
            self.deal(c, r.choice((1, 4, 5, 6, r.randrange(1, n), n - 1, n - 1)) if not c.rest else n)
        elif a in ("whole", "two", "fast", "fasthalf"):
            if op["p"] == "up" and op["got"] in ("answer", "answers"):
                b = c.rest or (b"" if c.flight and a != "fast" else self.ask())
                c.rest = b""
                if a == "two":
                    b += self.ask()
                if b:
                    self.put(c, b)
            if a == "fasthalf":
                b = self.ask()
                n = r.randrange(1, len(b))
                self.put(c, b[:n])
                c.rest = b[n:]
            self.deal(c)
        elif a == "junk":
            c.flight = r.choice((lambda: bytes(20000), lambda: b"\xff" * 20000, lambda: b"GET / HTTP/1.1\r\n\r\n" * 1200,
                                 lambda: b"\x16\x03\x01\x40\x00" + r.randbytes(40000), lambda: b"\x17\x03\x03\x00\x20" + r.randbytes(20000)))()
            self.deal(c)
        elif a == "bye":
            c.shut_wr()
        elif a == "fin":
            self.at.pop(op["c"]).close()
        elif a == "rst":
            self.at.pop(op["c"]).reset()

    def look(self, c):
        c.raw()
        if not c.up and not c.failed:
            c.step()
        c.take()
        while len(c.buf) >= 9 and b"\r\n\r\n" in c.buf:
            h, _, c.buf = c.buf.partition(b"\r\n\r\n")
            if not h.startswith(b"HTTP/1.1 404 ") or b"Content-Length: 0" not in h:
                raise Wrong("the answer is %r" % h[:80])
            c.answers += 1
            self.n["answers"] += 1

    def check(self, each, on):
        did = {o["c"]: o for o in each}

        def right():
            for n, c in self.at.items():
                self.look(c)
                op = did.get(n)
                if op and op["got"] == "closed":
                    if not c.eof:
                        return "%s is still connected" % n
                    continue
                if c.eof or c.failed:
                    return "%s is disconnected (%s)" % (n, c.failed)
                want = c.due if not op else 0 if op["a"] == "open" else c.was + dict(answer=1, answers=2).get(op["got"], 0)
                if c.answers != want:
                    return "%s has received %d answers, expected %d" % (n, c.answers, want)
                if op and op["p"] == "keys" and not c.flight and not c.up:
                    return "%s has not got the server's flight" % n
                if op and op["p"] in ("up", "up1"):
                    if not c.up:
                        return "%s's handshake does not end" % n
                    if c.name() != op["cert"]:
                        return "%s is shown the certificate of %s, expected %s" % (n, c.name(), op["cert"])
            return self.sockets(len(on))
        self.settle(right)
        for n, op in did.items():
            if op["got"] in ("up", "answer") and op["a"] in ("whole", "fast", "fasthalf"):
                self.n["handshakes"] += 1
            if op["got"] == "closed":
                self.at.pop(n).close()
            elif n in self.at:
                self.at[n].due = self.at[n].answers


class Factory:
    def __init__(self, kind, exe, seed):
        self.kind, self.exe, self.seed = kind, exe, seed

    def __call__(self):
        return self.kind(self.exe, self.seed)


# ------------------------------------------------- what holds over TCP, over TLS
class Polite(TlsConn):
    """may say goodbye before it leaves"""
    polite = False

    def close(self):
        if self.s and self.polite and self.up and not self.failed:
            self.shut_wr()
        super().close()
        self.s = None


def greet(srv, port, r, rcvbuf=None, sni="src.test"):
    c = Polite(port, rcvbuf, sni=sni, fast=r % 3 == 0)
    c.polite = r // 3 % 2 == 0
    for k in range(200):
        c.raw()
        c.step()
        if c.up or c.failed:
            break
        c.go()
        srv.ping()
    if not c.up:
        raise live.Mismatch("no handshake: %s" % (c.failed or "no end"))
    return c         # its last flight goes with its first data, if it is a fast one


class LiveRig(live.Rig):
    def __init__(self, exe):
        super().__init__(exe, secure(live.CONF))

    def connect(self, port, replay, rcvbuf=None):
        return greet(self.srv, port, rnd(replay.h, replay.i, len(replay.pls), len(replay.pubs)), rcvbuf)


class LiveRunner:
    def __init__(self, exe, seed):
        self.rig = LiveRig(exe)
        self.rep = live.Replay(self.rig, seed, 1)

    @property
    def steps(self):
        return self.rep.steps

    def run(self, case):
        return self.rep.run(case)

    def close(self):
        self.rig.close()


class ProxyRunner(proxy.Runner):
    conf = secure(proxy.CONF)

    def run(self, beh):
        self.r = random.Random(rnd(self.seed, repr([(s["a"], s.get("c"), s.get("e")) for s in beh])))
        return super().run(beh)

    def connect(self, port):
        return greet(self.srv, port, self.r.randrange(6), sni="a.test")


class SrtHttp(Conn):
    """as Conn, over SRT"""

    def __init__(self, port, r):
        self.k, self.r = srt.SrtConn(port, None), r
        self.buf, self.eof = b"", False
        time.sleep(.025)

    def send(self, data):
        for m in srtlive.messages(data, self.r):
            self.k.send(m)

    def poll(self):
        self.k.poll()
        self.buf += b"".join(self.k.msgs)
        self.k.msgs.clear()
        self.eof = self.k.eof
        return self.buf

    def close(self):
        self.k.close()

    reset = close


class SrtRunner(srtlive.Runner):
    """the publisher and the viewer of Srt.tla that speak HTTP do so over SRT"""
    conf = srtlive.CONF.replace("srt {", "http {\n    server over {\n        listen_port @PORT1@;\n        transport srt;\n%s    }\n}\nsrt {" % srtlive.HOSTS)
    ports = 2

    def web(self):
        self.last = SrtHttp(self.srv.ports[1], self.r)
        return self.last

    def finish(self):
        super().finish()
        # an answer that is followed by the end
        c = self.web()
        try:
            c.send(b"POST /live/x.flv HTTP/1.1\r\nHost: other.test\r\nContent-Length: 100000\r\n\r\n" + b"x" * self.r.randrange(2000))
            self.pump(lambda: c.poll() is not None and c.eof or "still connected", "after a request for a host that is not there")
            if not c.buf.startswith(b"HTTP/1.1 404 ") or not c.buf.endswith(b"\r\n\r\n"):
                raise srtlive.Wrong("before it is disconnected it gets %r" % c.buf)
        finally:
            c.close()


class NamesRunner:
    """who connects, in the order of a behaviour, is named in the server's log by its own address"""
    KINDS = ("tcp", "tls", "srt")

    def __init__(self, exe, seed):
        self.exe, self.seed, self.steps = exe, seed, 0

    def info(self):
        return {}

    def close(self):
        pass

    def run(self, case):
        conf = "http {\n" + "".join("server %s {\nlisten_port @PORT%d@;\n%stransport %s;\n%s}\n" % (
            k, i, cert("server") if k == "tls" else "", "https" if k == "tls" else k, HOST % ("one", "")) for i, k in enumerate(self.KINDS)) + "}\n"
        srv = Server(self.exe, conf, 3, log=True)
        cs, want = [], []
        try:
            srv.start()
            for i, op in enumerate(o for o in case["ops"] if o["a"] == "open"):
                k = self.KINDS[rnd(self.seed, case["ops"], i) % 3]
                p = srv.ports[self.KINDS.index(k)]
                if k == "srt":
                    c = srt.SrtConn(p, None)
                    time.sleep(.025)
                    want.append((k, c.local()))
                    for _ in range(3):
                        srv.advance(10)
                else:
                    c = greet(srv, p, 1, sni="one.test") if k == "tls" else Conn(p)
                    want.append((k, c.s.getsockname()[1]))
                cs.append(c)
                for _ in range(5):
                    srv.ping()
                self.steps += 1
            srv.quit()
            log = srv.stderr()
            for k, p in want:
                if "127.0.0.1:%d " % p not in log:
                    return "the log does not name the client at 127.0.0.1:%d (%s)" % (p, k)
        except (ServerDied, srt.Refused) as e:
            return str(e)
        finally:
            for c in cs:
                c.close()
            srv.cleanup()
        return None


INV = ("TypeOK", "Known", "Ends")


def model(cs, names, ports, ops, sim=None, seed=None, crowd=False):
    c = dict(C={"c%d" % (i + 1) for i in range(cs)}, Names=set(names), Ports=set(ports), Crowd=crowd, MaxOps=ops)
    kw = dict(spec="Spec", invariants=INV, properties=() if crowd else ("Apart",))
    if sim:
        return tlc.run("Tls", tlc.cfg_text(c, action_constraint="EmitEnd", **kw), simulate=sim, depth=ops + 1, seed=seed, workers=1)
    return tlc.run("Tls", tlc.cfg_text(c, view="GView", action_constraint="Emit", **kw), workers=1)


ALL = ("one", "two", "bare", "other", "")


def n02(ctx):
    q = ctx.quick
    lv = dict(Streams={"s1", "e1"}, Edge={"e1"}, Pubs={"p1", "p2"}, Players={"c1", "c2", "c3"}, Kinds=streaming.ALLK, Ends={"fin", "rst", "bad", "half"},
              Leaves={"fin", "rst"}, Exts={"flv"}, MaxPkt=99, MaxGen=6, MaxTick=2)
    slow = dict(Players={"c1", "c2"}, Kinds=streaming.ALLK, Stalls=True, Leaves={"fin", "rst"}, MaxPkt=99, MaxGen=2)
    px = dict(Clients={"c1", "c2"}, MaxEx=9, MaxPiece=3, Interims=2, Partials=True, Reconnect=True, MaxQueue=2)
    with cf.ThreadPoolExecutor(8) as ex:
        exe = ex.submit(lambda: {f: build.build("drv_spsd", f) for f in ("plain", "san")})
        stages = [("a client", ex.submit(model, 1, ALL, ("own", "named"), 7), 600 if q else 99999),
                  ("two clients", ex.submit(model, 2, ("one", "bare"), ("own",), 7), 400 if q else 99999),
                  ("three clients", ex.submit(model, 3, ("one",), ("own",), 6), 300 if q else 99999)]
        sims = [("five clients at random", Runner, ex.submit(model, 5, ALL, ("own", "named"), 30, 60 if q else 3000, ctx.seed), None),
                ("six clients at once", Runner, ex.submit(model, 6, ALL, ("own", "named"), 12, 40 if q else 1500, ctx.seed, True), None),
                ("streams over TLS", LiveRunner, ex.submit(streaming.simulate, lv, 100 if q else 4000, 30, ctx.seed), tlc.thin),
                ("slow players over TLS", LiveRunner, ex.submit(streaming.simulate, slow, 20 if q else 500, 25, ctx.seed), tlc.thin),
                ("HTTP over SRT", SrtRunner, ex.submit(srtlive.model, 1, "ab", True, {2, 3, 4, 5}, set(), 14, 40 if q else 1000, ctx.seed), None),
                ("exchanges over TLS", ProxyRunner, ex.submit(proxy.simulate, px, 120 if q else 3000, 18, ctx.seed), tlc.thin)]
        exe = exe.result()
        for n, m, cap in stages:
            r = ctx.model(n, m.result())
            behs = sorted(tlc.prune_prefixes([b["ops"] for b in r.behaviours]), key=lambda b: rnd(ctx.seed, str(b)))
            if not ctx.replay(n, [{"ops": b} for b in behs[:cap]], Factory(Runner, exe["san"], ctx.seed), extra={"kind": "Runner"}):
                return
        for n, k, m, thin in sims:
            r = ctx.model(n, m.result())
            if thin:
                behs = thin(r.behaviours)
            else:
                one = {str(b["ops"][:-1]): b["ops"] for b in sorted(r.behaviours, key=lambda b: rnd(ctx.seed, str(b)))}
                behs = [{"ops": b} for b in one.values()]
            if n == "five clients at random" and not ctx.replay("clients named in the log", behs[:8 if q else 60], Factory(NamesRunner, exe["plain"], ctx.seed), extra={"kind": "NamesRunner"}):
                return
            if not ctx.replay(n, behs, Factory(k, exe["san" if k is Runner else "plain"], ctx.seed), extra={"kind": k.__name__}):
                return


def replay(ctx, rec):
    kind = rec.get("kind", "Runner")
    r = globals()[kind](build.build("drv_spsd", "san" if kind == "Runner" else "plain"), rec["seed"])
    try:
        for c in rec["cases"]:
            m = r.run(c)
            if m:
                print(m)
                print("VIOLATION property=%s replay=given" % ctx.prop)
                return 1
    finally:
        r.close()
    print("the behaviour is as specified")
    return 0
