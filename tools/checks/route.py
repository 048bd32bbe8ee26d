"""H05: configurations and routing decisions of Route.tla on the real server."""
import concurrent.futures as cf
import random
import select
import socket
import threading
import time

import build
import tlc
from common import rnd
from e2e import Server, Conn, ServerDied, http_head

# label sets: ordinary ones, prefixes and mirror images of one another, single characters
LABELS = [("example", "www", "cdn"), ("com", "moc", "om"), ("a", "b", "c"), ("ab", "ba", "aba"), ("x-1", "1-x", "x"),
          ("live", "live2", "liv"), ("10", "0", "1"), ("lo", "l", "lol")]


class Upstream:
    """answers every request with the local address it was sent to"""

    def __init__(self):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("0.0.0.0", 0))
        self.l.listen(64)
        self.port = self.l.getsockname()[1]
        self.stop = False
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        conns = {}
        while not self.stop:
            r, _, _ = select.select([self.l] + list(conns), [], [], 0.2)
            for s in r:
                if s is self.l:
                    c, _ = s.accept()
                    c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    conns[c] = b""
                    continue
                try:
                    d = s.recv(65536)
                except OSError:
                    d = b""
                if not d:
                    s.close()
                    del conns[s]
                    continue
                conns[s] += d
                if b"\r\n\r\n" in conns[s]:
                    conns[s] = b""
                    body = ("block " + s.getsockname()[0]).encode()
                    try:
                        s.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body) + body)
                    except OSError:
                        pass
        for s in conns:
            s.close()
        self.l.close()

    def close(self):
        self.stop = True
        self.t.join()


class Runner:
    def __init__(self, exe, seed):
        self.exe, self.seed, self.steps = exe, seed, 0
        self.up = Upstream()
        self.n = dict(requests=0, started=0, rejected=0)

    def info(self):
        return self.n

    def conf(self, case, rng, text):
        blocks = {}                     # place -> [(id, name)]
        ids = {}
        for p, n, k in case["cnt"]:
            for _ in range(k):
                i = len(ids)
                ids[i] = (p, n)
                blocks.setdefault(p, []).append((i, n))
        for p in case["places"]:
            rng.shuffle(blocks.setdefault(p, []))

        def host(i, n, ind):
            opts = ["pass_proxy 127.0.0.%d:%d;" % (i + 2, self.up.port), "type proxy;", "role %s;" % rng.choice(["edge", "proxy", "source"])]
            rng.shuffle(opts)
            return "".join(ind + l + "\n" for l in ["host %s {" % text(n)] + ["    " + o for o in opts] + ["}"])

        def server(p):
            t = "    server %s {\n" % p
            parts = ["        listen_port @PORT%d@;\n" % case["port"][p]] + [host(i, n, " " * 8) for i, n in blocks[p]]
            if rng.random() < 0.5:
                parts.insert(rng.randrange(len(parts) + 1), "        server_name %s;\n" % p)
            rng.shuffle(parts)
            return t + "".join(parts) + "    }\n"
        top = []
        for p in case["places"]:
            if p not in case["port"] and (blocks[p] or rng.random() < 0.3):
                top.append("globalhost {\n" + "".join(host(i, n, "    ") for i, n in blocks[p]) + "}\n")
        srv = [p for p in case["places"] if p in case["port"]]
        rng.shuffle(srv)
        cut = rng.randrange(1, len(srv)) if len(srv) > 1 and case.get("split") else len(srv)
        for g in (srv[:cut], srv[cut:]):
            if g:
                top.append("http {\n" + "".join(server(p) for p in g) + "}\n")
        rng.shuffle(top)
        return "".join(top), {self_id(p, n): i for i, (p, n) in ids.items()}

    def run(self, case):
        self.steps += 1
        rng = random.Random(rnd(self.seed, repr(case["cnt"]), case.get("split")))
        labs = list(rng.choice(LABELS))
        rng.shuffle(labs)
        sub = dict(zip(["a", "b", "x"], labs))

        def text(n):
            return ".".join(sub.get(l, l) for l in n)
        conf, ids = self.conf(case, rng, text)
        nports = 1 + max(case["port"].values())
        srv = Server(self.exe, conf, nports)
        try:
            if not case["starts"]:
                return self.refused(srv, conf)
            try:
                srv.start()
            except ServerDied as e:
                return "the configuration is refused:\n%s\n%s" % (conf, str(e)[-400:])
            self.n["started"] += 1
            return self.ask(srv, case, rng, text, ids, conf)
        finally:
            srv.cleanup()

    def refused(self, srv, conf):
        srv.start(wait=False)
        t0 = time.time()
        while time.time() - t0 < 10:
            if srv.proc.poll() is not None:
                self.n["rejected"] += 1
                return None
            time.sleep(0.005)
        return "the server starts although the configuration has a duplicate or illegal name:\n" + conf

    def ask(self, srv, case, rng, text, ids, conf):
        rows = case["rows"]
        hit = [r for r in rows if r["b"][0] != "none"]
        rng.shuffle(hit)
        pick = hit[:14] + rng.sample(rows, min(len(rows), 8))
        rng.shuffle(pick)
        conns = {}
        for r in pick:
            self.n["requests"] += 1
            h = text(r["h"])
            c = conns.get(r["p"])
            if c is None or c.eof:
                c = conns[r["p"]] = Conn(srv.ports[r["p"]])
            base = len(c.poll())
            hh = h + rng.choice(["", "", ":%d" % srv.ports[r["p"]], ":80"])
            other = rng.choice(["", "X-Host: zzz\r\n", "Accept: text/html\r\n"])
            c.send(("GET /%s HTTP/1.1\r\n%sHost: %s\r\n\r\n" % (rng.choice(["", "p/q.txt", "a?b=c"]), other, hh)).encode())
            want = "404" if r["b"][0] == "none" else "block 127.0.0.%d" % (ids[self_id(*r["b"])] + 2)
            got = "nothing"
            for k in range(400):
                try:
                    srv.ping()
                except ServerDied as e:
                    return "%s\n%s" % (e, conf)
                c.poll()
                hd = http_head(c.buf[base:]) if b"\r\n\r\n" in c.buf[base:] else None
                if hd:
                    n = int(dict((a.lower(), b) for a, b in hd[1]).get("content-length", -1))
                    if hd[0] == 404 and n == 0:
                        got = "404"
                        break
                    if 0 <= n <= len(hd[2]):
                        got = hd[2].decode("latin1") if hd[0] == 200 else "status %d" % hd[0]
                        break
                if c.eof:
                    got = "closed %r" % c.buf[base:][:60]
                    break
                if k > 50:
                    time.sleep(0.01)
            if got != want:
                for x in conns.values():
                    x.close()
                return "port %d, host %s: expected %s, observed %s\n%s" % (r["p"], hh, want, got, conf)
        for x in conns.values():
            x.close()
        return None

    def close(self):
        self.up.close()


def self_id(p, n):
    return p + "|" + ".".join(n)


class Factory:
    def __init__(self, exe, seed):
        self.exe, self.seed = exe, seed

    def __call__(self):
        return Runner(self.exe, self.seed)


PORT = {"s1": 0, "s2": 0, "s3": 1}
NAMES = [["a", "b"], ["x", "a", "b"], ["b"], ["*", "b"], ["*", "a", "b"], ["*", "x"], ["*"], ["*x"], ["*", ""], ["*x", "a"]]


def consts(globs, port, names, hosts, emit_all, labels=("a", "b", "x"), maxlen=3):
    return dict(Globals=set(globs), Servers=set(port), PortOf=tlc.Raw(" @@ ".join('"%s" :> %d' % kv for kv in port.items())),
                Labels=set(labels), MaxLen=maxlen, MaxHosts=hosts, EmitAll=emit_all, Names=tlc.Raw(tlc.tla({tuple(n) for n in names})))


def h05(ctx):
    q = ctx.quick
    one = {"s1": 0}
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build.build, "drv_spsd", "plain")
        jobs = []

        def job(name, globs, port, names, hosts, limit, sim=None, split=False):
            c = consts(globs, port, names, hosts, sim is None)
            inv = ("Best", "GlobalEverywhere", "Emit")
            cfg = tlc.cfg_text(c, spec="Spec", invariants=inv, properties=() if sim else ("OneMore", "RejectedStays"))
            if sim:
                f = ex.submit(tlc.run, "Route", cfg, simulate=sim, depth=hosts + 1, seed=ctx.seed)
            else:
                f = ex.submit(tlc.run, "Route", cfg, workers=2)
            jobs.append((name, f, globs, port, limit, split))
        job("one server, up to three blocks", ["g1"], one, NAMES[:2] + NAMES[3:5] + NAMES[6:7] if q else NAMES[:8], 3, 260 if q else None)
        job("two ports, a port shared by two servers", ["g1"], PORT, [NAMES[0], NAMES[3], NAMES[6], NAMES[7]], 2 if q else 3, 160 if q else None)
        job("illegal names", ["g1"], one, NAMES[6:], 2, 40 if q else None)
        job("larger configurations", ["g1", "g2"], PORT, NAMES[:7], 5, 240 if q else 3000, sim=300 if q else 3000)
        job("several http blocks", ["g1"], PORT, NAMES[:5] + NAMES[6:7], 3, 100 if q else 1000, sim=100 if q else 800, split=True)
        fac = Factory(fb.result(), ctx.seed)
        for name, f, globs, port, limit, split in jobs:
            r = ctx.model(name, f.result())
            cases = [dict(b, places=sorted(globs) + sorted(port), port=port, split=split) for b in r.behaviours]
            rr = random.Random(rnd(ctx.seed, name))
            rr.shuffle(cases)
            if limit:
                # configurations that start are the telling ones: three in four
                ok = [c for c in cases if c["starts"]]
                no = [c for c in cases if not c["starts"]]
                cases = ok[:limit * 3 // 4] + no[:limit - min(len(ok), limit * 3 // 4)]
            if not ctx.replay(name, cases, fac):
                return


class UpRunner:
    """H07: which upstream the requests and pulls of a host reach"""

    def __init__(self, exe, seed):
        self.exe, self.seed, self.steps = exe, seed, 0
        self.socks, self.log, self.stop = {}, [], False
        l = self.listen("0.0.0.0", 0)
        self.port = l.getsockname()[1]
        self.bare = None                # an address whose port 80 is ours
        for k in range(8):
            ip = "127.%d.%d.%d" % tuple(random.randrange(1, 255) for _ in range(3))
            try:
                self.listen(ip, 80)
                self.bare = ip
                break
            except OSError:
                pass
        self.n = dict(requests=0, without_port=0, nowhere=0)
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def listen(self, ip, port):
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((ip, port))
            s.listen(64)
        except OSError:
            s.close()
            raise
        self.socks[s] = None
        return s

    def loop(self):
        while not self.stop:
            for s in select.select(list(self.socks), [], [], 0.1)[0]:
                if self.socks[s] is None:
                    c, _ = s.accept()
                    c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    self.socks[c] = b""
                    self.log.append((c.getsockname(), None))
                    continue
                try:
                    d = s.recv(65536)
                    self.socks[s] += d
                    if b"\r\n\r\n" in self.socks[s]:
                        path = self.socks[s].split(b" ")[1].decode("latin1")
                        self.log.append((s.getsockname(), path))
                        self.socks[s] = b""
                        if path.endswith(".flv"):       # a stream goes on
                            s.sendall(b"HTTP/1.1 200 OK\r\n\r\nFLV\x01\x05\0\0\0\x09\0\0\0\0")
                        else:
                            s.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")
                        continue
                except OSError:
                    d = b""
                if not d:
                    s.close()
                    del self.socks[s]
        for s in self.socks:
            s.close()

    def info(self):
        return self.n

    def run(self, case):
        self.steps += 1
        rng = random.Random(rnd(self.seed, repr(case)))
        where = {"a": ("127.0.0.2", self.port), "b": ("127.0.0.3", self.port), "c": ("127.0.0.1", self.port)}
        text = {a: "%s:%d" % w for a, w in where.items()}
        text["c"] = "localhost:%d" % self.port
        if self.bare and rng.random() < .4:
            k = rng.choice("abc")
            where[k], text[k] = (self.bare, 80), self.bare
        undef = any(h["to"] == [] for h in case["hosts"])
        pool = ["-back", "300.1.1.1", "1.2.3.4.5", "-u"] if undef else ["u1", "u12", "github", "up-2", "localhost", "127.0.0.9", "u"]
        names = dict(zip(sorted(n for n, _ in case["ups"]), rng.sample(pool, len(case["ups"]))))
        blocks = []

        def up(n, a, ind):
            o = ["server %s;" % text[a]] + rng.sample(["keepalive 80;", "name %s;" % rng.choice(["x", "u1"])], rng.randrange(3))
            rng.shuffle(o)
            return "".join(ind + x + "\n" for x in ["upstream %s{" % (n and n + " ")] + ["    " + x for x in o] + ["}"])
        for n, a in case["ups"]:
            if a:
                blocks.append(up(names[n], a[0], ""))
        kinds, inside, glob = {}, [], []
        for h in case["hosts"]:
            kinds[h["h"]] = k = rng.choice(["proxy", "edge"])
            o = ["    type %s;\n" % ("proxy" if k == "proxy" else "stream")] + (["    role edge;\n"] if k == "edge" or rng.random() < .5 else [])
            if h["pass"]:
                x = h["pass"]
                o.append("    pass_proxy %s;\n" % (text[x[1]] if x[0] == "addr" else names[x[1]]))
            if k == "edge":
                o.append("    edge_avformat flv;\n")
            if h["own"]:
                o.append(up(h["own"][0], h["own"][1], "    "))
            rng.shuffle(o)
            (glob if rng.random() < .5 else inside).append("host %s.test {\n%s}\n" % (h["h"], "".join(o)))
        if glob:
            blocks.append("globalhost {\n%s}\n" % "".join(glob))
        blocks.append("http {\nserver s {\nlisten_port @PORT0@;\n%s}\n}\n" % "".join(inside))
        rng.shuffle(blocks)
        conf = "".join(blocks)
        srv = Server(self.exe, conf, 1)
        try:
            try:
                srv.start()
            except ServerDied as e:
                return "the configuration is refused:\n%s\n%s" % (conf, str(e)[-400:])
            seq = case["hosts"] * 2
            rng.shuffle(seq)
            for i, h in enumerate(seq):
                m = self.ask(srv, h, kinds[h["h"]], "/r%d_%d" % (self.steps, i), where)
                if m:
                    return "%s\n%s" % (m, conf)
            return None
        finally:
            srv.cleanup()

    def ask(self, srv, h, kind, path, where):
        self.n["requests"] += 1
        want = where[h["to"][0]] if h["to"] else None
        self.n["nowhere"] += want is None
        self.n["without_port"] += want is not None and want[1] == 80
        path += ".flv" if kind == "edge" else ""
        del self.log[:]
        c = Conn(srv.ports[0])
        c.send(("GET %s HTTP/1.1\r\nHost: %s.test\r\n\r\n" % (path, h["h"])).encode())
        for k in range(600):
            try:
                srv.ping()
            except ServerDied as e:
                return str(e)
            c.poll()
            if b"\r\n\r\n" in c.buf or c.eof:
                break
            if k > 50:
                time.sleep(.01)
        head = http_head(c.buf) if b"\r\n\r\n" in c.buf else None
        c.close()
        seen = [w for w, p in self.log if p is None]
        got = [(w, p) for w, p in self.log if p is not None]
        if want is None:
            return None if not seen and not (head and head[0] == 200) else "host %s names no upstream but %s was connected to and answered %s" % (h["h"], seen, head and head[0])
        if got != [(want, path)] or seen != [want]:
            return "the %s of host %s must go to %s, connections went to %s, requests to %s" % (kind, h["h"], want, seen, got)
        if not head or head[0] != 200:
            return "the answer of the upstream of host %s did not arrive: %r" % (h["h"], c.buf[:80])
        return None

    def close(self):
        self.stop = True
        self.t.join()


class UpFactory(Factory):
    def __call__(self):
        return UpRunner(self.exe, self.seed)


def h07(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build.build, "drv_spsd", "plain")

        def job(names, addrs, hosts, inner):
            cfg = tlc.cfg_text(dict(Names=set(names), Addrs=set(addrs), Hosts=set(hosts), Inner=set(inner)), spec="Spec",
                               invariants=("SameAs", "Emit"), properties=("Local", "Once"))
            return ex.submit(tlc.run, "Upstream", cfg)
        jobs = [("one host", job(["u1", "u2"], "abc", ["h1"], ["", "mine"]), None if not q else 400),
                ("two hosts", job(["u1", "u2"], "abc", ["h1", "h2"], ["", "mine"]), 500 if q else 8000)]
        fac = UpFactory(fb.result(), ctx.seed)
        for n, f, lim in jobs:
            cases = sorted(ctx.model(n, f.result()).behaviours, key=lambda x: rnd(ctx.seed, repr(x)))
            if not ctx.replay(n, cases[:lim], fac):
                return


def replay(ctx, rec):
    r = (UpRunner if ctx.prop == "H07" else Runner)(build.build("drv_spsd", "plain"), rec["seed"])
    try:
        for c in rec["cases"]:
            m = r.run(c)
            if m:
                print(m)
                print("VIOLATION property=%s replay=given" % ctx.prop)
                return 1
    finally:
        r.close()
    print("the behaviour is as specified")
    return 0
