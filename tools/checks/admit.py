"""S04: behaviours of Admit.tla performed on the real server."""
import concurrent.futures as cf
import socket
import struct

import build
import tlc
from common import rnd
from e2e import Server, Conn, ServerDied, FLV_HEADER, FlvStream, flv_tag, flv_body, http_head

ROLES = ["source", "edge", "proxy", "default"]
FORMATS = ["all", "flv", "ts", "mp4", "default", "mpegts", "rtmp", "hls", "flvts", "al"]


def conf():
    t = "http {\n    server live {\n        listen_port @PORT0@;\n"
    for r in ROLES:
        for f in FORMATS:
            t += "        host %s-%s.test {\n            type stream;\n            pass_proxy 127.0.0.1:@ORIGIN0@;\n" % (r, f)
            if r != "default":
                t += "            role %s;\n" % r
            if f != "default":
                t += "            edge_avformat %s;\n" % f
            t += "        }\n"
    return t + "    }\n}\n"


class Runner:
    def __init__(self, exe, seed):
        s = socket.socket()          # a port on which nobody listens
        s.bind(("127.0.0.1", 0))
        self.hold = s
        self.srv = Server(exe, conf(), 1, origin_ports=[s.getsockname()[1]])
        self.srv.start()
        self.seed, self.serial, self.steps = seed, 0, 0

    def run(self, beh):
        self.serial += 1
        conns, others = {}, []
        port = self.srv.ports[0]
        try:
            for i, st in enumerate(beh):
                self.steps += 1
                r = rnd(self.seed, self.serial, i)
                host = "%s-%s.test" % tuple(st["h"])
                q = ["", "?a=b", "?x=1.flv&y=/z.ts"][r % 3]
                ext = st.get("e", "")
                path = "/a%d/%s%s%s" % (self.serial, st["s"], "." + ext if ext != "none" else "", q)
                got = None
                if st["a"] == "End":
                    conns.pop(st["n"]).close()
                    self.srv.ping()
                    continue
                c = Conn(port)
                others.append(c)
                if st["a"] == "Publish":
                    body = FLV_HEADER + struct.pack(">I", 0) + flv_tag("key", 40, flv_body("key", b"K%d" % st["n"])) if ext == "flv" else b""
                    c.send(("POST %s HTTP/1.1\r\nHost: %s\r\n\r\n" % (path, host)).encode() + body)
                    self.srv.ping()
                    c.poll()
                    got = self.verdict(c, "ok")
                    if st["r"] == "403" and got == "403" and not c.eof:
                        got = "403 without close"
                    if st["r"] == "ok":
                        conns[st["n"]] = c
                    cur = (st["s"], st["n"], ext)
                else:
                    c.send(("GET %s HTTP/1.1\r\nHost: %s\r\n\r\n" % (path, host)).encode())
                    for _ in range(40):
                        self.srv.ping()
                        c.poll()
                        got = self.verdict(c, "nothing")
                        if got != "nothing":
                            break
                    if got == "200":
                        fs = FlvStream()
                        fs.feed(c.buf[c.buf.find(b"\r\n\r\n") + 4:])
                        if not fs.header or fs.error:
                            got = "200 without a valid FLV stream"
                if got != st["r"]:
                    return "step %d %s %s%s: expected %s, observed %s" % (i + 1, st["a"], host, path, st["r"], got)
        except ServerDied as e:
            return "step %d %s: %s" % (i + 1, st, e)
        finally:
            for c in others:
                c.close()
            try:
                self.srv.ping()
                self.srv.advance(11000)
            except ServerDied:
                pass
        return None

    def verdict(self, c, quiet):
        if c.buf:
            h = http_head(c.buf)
            if not h:
                return "garbage %r" % c.buf[:40]
            if h[0] == 403 or h[0] == 404:
                if ("Content-Length", "0") not in h[1] and not c.eof:
                    return "%d without an end" % h[0]
                if h[2]:
                    return "%d followed by %r" % (h[0], h[2][:40])
            return str(h[0])
        return "closed" if c.eof else quiet

    def close(self):
        self.srv.cleanup()
        self.hold.close()


class Factory:
    def __init__(self, exe, seed):
        self.exe, self.seed = exe, seed

    def __call__(self):
        return Runner(self.exe, self.seed)


def s04(ctx):
    q = ctx.quick
    base = dict(Roles=set(ROLES), Formats=set(FORMATS), Exts={"flv", "ts", "mp4", "flvx", "fl", "none", "FLV"}, Names={"s1"})
    inv = ("OnlySource", "OnlyPermitted", "Traceless", "Emit")
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build.build, "drv_spsd", "plain")
        jobs = [("matrix of depth 2", dict(base, MaxHist=2)),
                ("histories of depth 4 on sources", dict(base, Roles={"source"}, Exts={"flv", "ts", "mp4", "flvx"}, MaxHist=3 if q else 4)),
                ("two names", dict(base, Roles={"source"}, Formats={"all", "flv"}, Exts={"flv", "ts"}, Names={"s1", "s2"}, MaxHist=3 if q else 4))]
        fs = [(n, ex.submit(tlc.run, "Admit", tlc.cfg_text(c, spec="Spec", invariants=inv))) for n, c in jobs]
        fac = Factory(fb.result(), ctx.seed)
        for n, f in fs:
            r = ctx.model(n, f.result())
            behs = r.behaviours
            if not ctx.replay(n, behs, fac):
                return


def replay(ctx, rec):
    r = Runner(build.build("drv_spsd", "plain"), rec["seed"])
    try:
        for c in rec["cases"]:
            m = r.run(c)
            if m:
                print(m)
                print("VIOLATION property=%s replay=given" % ctx.prop)
                return 1
    finally:
        r.close()
    print("the behaviour is as specified")
    return 0
