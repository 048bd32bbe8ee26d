"""N04: behaviours of Dial.tla performed by the library's clients, on peers made of
plain sockets, OpenSSL memory buffers and libsrt."""
import concurrent.futures as cf
import ctypes
import os
import random
import socket
import ssl
import struct
import time

import build
import srt
import tlc
from checks.io import UnitFactory, replay_unit
from common import rnd
from drv import Driver, DriverDied

KEYS = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "harness", "tls")
POUR = 6 << 20
POURED = (bytes(i * 7 % 251 for i in range(251)) * (POUR // 251 + 1))[:POUR]
T = 1000000     # a tick, in ms


class Wrong(Exception):
    pass


class TcpPeer:
    """the other end of a TCP connection"""
    def __init__(self, sock):
        self.s, self.got, self.end = sock, bytearray(), False
        sock.setblocking(False)
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def wire(self):
        b = bytearray()
        if not self.end:    # (or the client's kernel holds a small write back)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
        while not self.end:
            try:
                x = self.s.recv(1 << 20)
            except BlockingIOError:
                break
            except ConnectionError:
                x = b""
            if not x:
                self.end = True
            b += x
        return bytes(b)

    def take(self):
        self.got += self.wire()
        return self.got

    def send(self, d):
        self.s.sendall(d)

    def leave(self, r):
        self.s.close()


class TlsPeer(TcpPeer):
    def __init__(self, sock, r):
        super().__init__(sock)
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        c.minimum_version = c.maximum_version = ssl.TLSVersion.TLSv1_2
        n = r.choice(("one", "two", "server"))
        c.load_cert_chain("%s/%s.crt" % (KEYS, n), "%s/%s.key" % (KEYS, n))
        if r.random() < .3:
            c.options |= ssl.OP_NO_TICKET
        if r.random() < .3:     # a certificate of the client's is welcome, not required
            c.load_verify_locations("%s/one.crt" % KEYS)
            c.verify_mode = ssl.CERT_OPTIONAL
        self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.t = c.wrap_bio(self.i, self.o, server_side=True)
        self.up, self.out = False, b""

    def shake(self):
        """react to what has come; the flight that is ready to go"""
        w = self.wire()
        if w:
            self.i.write(w)
            try:
                self.t.do_handshake()
                self.up = True
            except ssl.SSLWantReadError:
                pass
            self.out += self.o.read()
        return self.out

    def take(self):
        w = self.wire()
        if w:
            self.i.write(w)
        while True:
            try:
                x = self.t.read(1 << 20)
                if not x:
                    break
                self.got += x
            except (ssl.SSLWantReadError, ssl.SSLError):
                break
        return self.got

    def seal(self, d):
        self.t.write(d)
        return self.o.read()

    def send(self, d):
        self.s.sendall(self.seal(d))

    def leave(self, r):
        if self.up and r.random() < .5:
            try:
                self.t.unwrap()
            except ssl.SSLError:
                pass
            self.s.sendall(self.o.read())
        self.s.close()


class SrtPeer(srt.SrtConn):
    def __init__(self, fd):
        self.fd, self.eof, self.msgs, self.failed = fd, False, [], False
        self._set(srt.RCVSYN, 0, 1)
        self._set(srt.SNDSYN, 0, 1)

    def take(self):
        return b"".join(self.poll())

    def leave(self, r):
        t = time.time() + 5
        while self.unsent() and time.time() < t:
            time.sleep(.002)
        self.close()


class SrtListener:
    def __init__(self, secret=None):
        l = srt.lib()
        self.fd = l.srt_create_socket()
        opt = lambda o, v, n: l.srt_setsockflag(self.fd, o, v, n)
        opt(srt.TRANSTYPE, struct.pack("<i", 0), 4)
        opt(srt.TSBPD, b"\0", 1)
        opt(srt.TLPKTDROP, b"\0", 1)
        opt(srt.RCVSYN, b"\0", 1)
        if secret:
            opt(26, secret, len(secret))
        a = struct.pack("<H", socket.AF_INET) + b"\0\0" + socket.inet_aton("127.0.0.1") + b"\0" * 8
        assert l.srt_bind(self.fd, a, len(a)) == 0 and l.srt_listen(self.fd, 20) == 0
        b, n = ctypes.create_string_buffer(16), ctypes.c_int(16)
        l.srt_getsockname(self.fd, b, ctypes.byref(n))
        self.port = struct.unpack(">H", b.raw[2:4])[0]

    def accept(self):
        b, n = ctypes.create_string_buffer(16), ctypes.c_int(16)
        return srt.lib().srt_accept(self.fd, b, ctypes.byref(n))


class Runner:
    def __init__(self, exe, seed):
        self.d, self.seed, self.steps = Driver(exe), seed, 0
        self.n = dict(dials=0, established=0, failures=0, reads=0, writes=0)
        self.open = socket.create_server(("127.0.0.1", 0), backlog=20)
        self.open.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 100000)
        self.refuse = socket.socket()
        self.refuse.bind(("127.0.0.1", 0))
        self.mute = socket.create_server(("127.0.0.1", 0), backlog=0)
        self.fill = []
        for _ in range(4):      # the queue of those nobody accepts is full
            s = socket.socket()
            s.setblocking(False)
            s.connect_ex(self.mute.getsockname())
            self.fill.append(s)
        self.hole = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.hole.bind(("127.0.0.1", 0))
        self.lsn = self.rej = None

    def info(self):
        return self.n

    def close(self):
        self.d.close()

    def ask(self, c, want=None):
        self.log.append(c[:60])
        got = self.d.ask([c])[0]
        self.steps += 1
        if want is not None and got != want:
            cut = lambda x: x if len(x) < 160 else "%s... (%d)" % (x[:160], len(x))
            raise Wrong("%s: expected %s, observed %s" % (c[:80], cut(want), cut(got)))
        return got

    def run(self, case):
        self.r = random.Random(rnd(self.seed, str(case)))
        self.log, self.peers = [], {}
        try:
            self.ask("reset", "ok")
            fds = self.ask("fds")
            self.k, self.blocks, self.sent, self.two, self.up, self.pend = {}, {}, {}, {}, {}, set()
            self.srt = any(o.get("k") == "srt" for o in case["h"])
            self.exact = not self.srt
            for i, o in enumerate(case["h"]):
                self.op(o)
            for c in list(self.peers):
                p = self.peers[c]
                if isinstance(p, TcpPeer):
                    p.s.close()
                else:
                    p.close()
            self.ask("reset", "ok")
            left = int(self.ask("fds"))
            if not self.srt and left > int(fds):
                raise Wrong("%d descriptors more than before" % (left - int(fds)))
        except Wrong as e:
            self.d.close()
            return "%s   (commands: %s)" % (e, "; ".join(self.log)[-700:])
        except DriverDied as e:
            return str(e)
        except Exception:
            self.d.close()
            raise
        return None

    # --- what the driver says of a waiting call
    def done(self, c, key, want, late=False):
        self.pend.discard(key)
        # (that the time has passed, the coroutine learns at once; libsrt itself gives up after 3 s)
        self.ask(("until %s %d" % (key, 300 if late else 5000)) if self.k[c] == "srt" else "res %s" % key, want)

    def waits(self, c, key):
        self.pend.add(key)
        self.ask(("until %s 15" if self.k[c] == "srt" else "res %s") % key, "pending")

    def peer_has(self, c, end=False):
        p, want = self.peers[c], self.sent[c]
        t = time.time() + 5
        while True:
            got = p.take()
            over = p.eof if self.k[c] == "srt" else p.end
            if (len(got) >= len(want) and (over or not end)) or time.time() > t:
                break
            if self.k[c] == "srt":
                self.ask("run 1")
            else:
                time.sleep(.0005)
        if got != want:
            n = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            raise Wrong("connection %d: written %d bytes, its peer received %d, the same up to %d" % (c, len(want), len(got), n))
        if over != end:
            raise Wrong("connection %d is %s at its peer" % (c, "closed" if over else "not closed"))

    def block(self, c, i):
        if (c, i) not in self.blocks:
            r = self.r
            top = 1316 if self.k[c] == "srt" else 4096 if r.random() < .9 else 16000
            self.blocks[c, i] = r.randbytes(r.choice((1, 2, 188, 1316, top)) if r.random() < .5 else r.randrange(1, top))
        return self.blocks[c, i]

    def limit(self, w):
        return w * T if w else -1

    def op(self, o):
        a, c, r = o["a"], o.get("c"), self.r
        if a == "dial":
            c = len(self.k) + 1
            self.k[c] = k = o["k"]
            self.sent[c] = b""
            self.n["dials"] += 1
            host, m = "127.0.0.1", o["m"]
            if k == "srt":
                if m == "open":
                    self.lsn = self.lsn or SrtListener()
                    port = self.lsn.port
                elif m == "reject":
                    self.rej = self.rej or SrtListener(b"longer than ten")
                    port = self.rej.port
                else:
                    port = self.hole.getsockname()[1]
            else:
                port = {"open": self.open, "refuse": self.refuse, "silent": self.mute}[m].getsockname()[1]
                if r.random() < .2:
                    host = "localhost"
                elif m == "refuse" and r.random() < .3:
                    host = "no..name"       # no name at all: as little a connection as with a peer that refuses
            up = "up %s %d" % (host if k != "tcp" else "127.0.0.1", port)
            self.up[c] = up
            self.ask("dial %d %s %s %d %d" % (c, k, host, port, self.limit(o["w"])))
            if o["ph"] == "failed":
                self.n["failures"] += 1
                return self.done(c, "d%d" % c, "failed")
            if k != "srt" and m == "open":
                s = self.open.accept()[0]
                self.peers[c] = TlsPeer(s, r) if k == "tls" else TcpPeer(s)
            if o["ph"] == "dial":
                return self.waits(c, "d%d" % c)
            self.n["established"] += 1
            self.done(c, "d%d" % c, up)
            if k == "srt":
                t = time.time() + 5
                while True:
                    fd = self.lsn.accept()
                    if fd >= 0 or time.time() > t:
                        break
                    time.sleep(.002)
                if fd < 0:
                    raise Wrong("connection %d is not at its peer" % c)
                self.peers[c] = SrtPeer(fd)
            return
        if a == "tick":
            if self.exact and r.random() < .5:
                self.ask("adv %d" % (T - 1), "ok")
                for key in sorted(self.pend):
                    self.ask("res %s" % key, "pending")
                self.ask("adv 1", "ok")
            else:
                self.ask("adv %d" % T, "ok")
            for what, key, say in (("dl", "d", "failed"), ("rl", "r", "late"), ("wl", "w", "late")):
                for c in o[what]:
                    self.done(c, "%s%d" % (key, c), say, True)
            return
        p = self.peers.get(c)
        if a == "give":
            f = p.shake()
            if not f:
                raise Wrong("connection %d: the peer has nothing to answer to in the handshake" % c)
            if o["how"] == "part":
                n = r.choice((1, 4, 5, 6, len(f) - 1, r.randrange(1, len(f))))
                n = min(n, len(f) - 1)
                p.s.sendall(f[:n])
                p.out = f[n:]
                return self.waits(c, "d%d" % c)
            p.out = b""
            if o["how"] == "glued":
                f += p.seal(self.block(c, 1))
            if len(f) > 6 and r.random() < .3:      # in small pieces at once
                for i in range(0, len(f), 100):
                    p.s.sendall(f[i:i + 100])
            else:
                p.s.sendall(f)
            if o["ph"] != "up":
                return self.waits(c, "d%d" % c)
            self.n["established"] += 1
            return self.done(c, "d%d" % c, self.up[c])
        if a == "spoil":
            p.wire()
            if o["how"] == "close":
                p.leave(r)
            else:
                p.s.sendall(b"\x15\x03\x03\x00\x02\x02\x28" if o["how"] == "alert" else b"HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n")
            self.n["failures"] += 1
            return self.done(c, "d%d" % c, "failed")
        if a == "part":
            raw = p.seal(self.block(c, o["id"]))
            n = r.choice((1, 5, len(raw) - 1, r.randrange(1, len(raw))))
            p.s.sendall(raw[:n])
            p.rest = raw[n:]
            if "r%d" % c in self.pend:
                self.waits(c, "r%d" % c)
            return
        if a == "send":
            d = self.block(c, o["id"])
            if o["rest"]:
                p.s.sendall(p.rest)
            else:
                p.send(d)
            if o["done"]:
                self.n["reads"] += 1
                if self.two.get(c):
                    ids, self.two[c] = self.two[c], None
                    d = b"".join(self.block(c, i) for i in ids)
                self.done(c, "r%d" % c, d.hex())
            elif self.two.get(c):
                self.waits(c, "r%d" % c)
            return
        if a == "read":
            self.n["reads"] += 1
            d = self.block(c, o["id"])
            how = r.random()
            if how < .4:
                self.ask("fully %d %d -1 %s" % (c, len(d), r.choice(("io", "-"))))
                return self.done(c, "r%d" % c, d.hex())
            step = r.choice((1, 2, 100, 1316, 4096, 65536)) if len(d) < 300 else r.choice((100, 188, 1316, 1400, 4096, 65536))
            got = b""
            while len(got) < len(d):
                n = min(step, len(d) - len(got)) if self.k[c] == "tcp" else step
                self.ask("read %d %d -1" % (c, n))
                x = self.ask("until r%d 5000" % c if self.k[c] == "srt" else "res r%d" % c)
                if x in ("pending", "late", "end") or x.startswith("more"):
                    raise Wrong("read of %d of the %d bytes there, %d read: %s" % (n, len(d), len(got), x))
                got += bytes.fromhex(x if x != "-" else "")
                if not d.startswith(got):
                    raise Wrong("read %s of %s" % (got.hex()[:200], d.hex()[:200]))
            return
        if a == "end":
            f = r.random() < .5
            self.ask("%s %d 4096 -1 io" % ("fully" if f else "read", c))
            return self.done(c, "r%d" % c, "end")
        if a == "wait":
            self.ask("read %d %d %d" % (c, r.choice((16384, 20000)), self.limit(o["w"])))
            return self.waits(c, "r%d" % c)
        if a == "wait2":
            ids = (list(o["in"]) + [o["n"] + 1, o["n"] + 2])[:2]
            self.two[c] = ids
            self.ask("fully %d %d -1 %s" % (c, sum(len(self.block(c, i)) for i in ids), r.choice(("io", "-"))))
            return self.waits(c, "r%d" % c)
        if a == "leave":
            p.leave(r)
            del self.peers[c]
            self.two[c] = None
            if o["end"]:
                self.done(c, "r%d" % c, "end")
            return
        if a == "write":
            self.n["writes"] += 1
            n = r.choice((1, 2, 188, 1316, 1317, 16384, 16385, 40000)) if r.random() < .5 else r.randrange(1, 3000)
            d = r.randbytes(n)
            self.sent[c] += d
            self.ask("write %d %s -1" % (c, d.hex()))
            self.done(c, "w%d" % c, "ok")
            return self.peer_has(c)
        if a == "pour":
            self.n["writes"] += 1
            self.sent[c] += POURED
            self.ask("pour %d %d %d" % (c, POUR, self.limit(o["w"])))
            return self.waits(c, "w%d" % c)
        if a == "drain":
            t = time.time() + 20
            while self.ask("res w%d" % c) == "pending" and time.time() < t:
                p.take()
            self.done(c, "w%d" % c, "ok")
            return self.peer_has(c)
        if a == "close":
            self.ask("close %d" % c, "ok")
            if o["tell"]:
                self.peer_has(c, True)
            return
        raise ValueError(a)



def runs(q):
    one = dict(MaxC=1, MaxBlocks=2 if q else 3, Limits={1, 2})
    # name, constants, simulate
    return [
        ("one over TCP", dict(one, Kinds={"tcp"}, MaxHist=9 if q else 12), None),
        ("one over TLS", dict(one, Kinds={"tls"}, MaxHist=9 if q else 12), None),
        ("one over SRT", dict(one, Kinds={"srt"}, MaxBlocks=2, MaxHist=7 if q else 10), None),
        ("two at once", dict(one, Kinds={"tcp", "tls"}, MaxC=2, MaxBlocks=1, MaxHist=5 if q else 7, Limits={1}), None),
        ("many, long", dict(Kinds={"tcp", "tls"}, MaxC=14, MaxBlocks=8, MaxHist=60, Limits={1, 2, 3}), 100 if q else 3000),
        ("many with SRT, long", dict(Kinds={"tcp", "tls", "srt"}, MaxC=12, MaxBlocks=8, MaxHist=40, Limits={1, 2}), 40 if q else 800),
    ]


def n04(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build.build, "drv_dial", "san")
        fs = []
        for name, c, sim in runs(q):
            cfg = tlc.cfg_text(c, spec="Spec", view=None if sim else "View", invariants=("InOrder", "Shaken", "InTime", "Awake"),
                               action_constraint="EmitEnd" if sim else "Emit")
            fs.append((name, sim, ex.submit(tlc.run, "Dial", cfg, simulate=sim, depth=c["MaxHist"] + 1, seed=ctx.seed)))
        exe = fb.result()
        for name, sim, f in fs:
            r = ctx.model(name, f.result())
            b = tlc.thin(r.behaviours) if sim else tlc.prune_prefixes(r.behaviours)
            lim = (200 if "SRT" in name else 700) if q else (2500 if "SRT" in name else 20000)
            cases = [dict(h=x) for x in b]
            if len(cases) > lim:
                cases = sorted(cases, key=lambda x: rnd(ctx.seed, str(x)))[:lim]
            if not ctx.replay(name, cases, UnitFactory(Runner, exe, ctx.seed)):
                return


def replay(ctx, rec):
    return replay_unit(ctx, rec, Runner, build.build("drv_dial", "san"))
