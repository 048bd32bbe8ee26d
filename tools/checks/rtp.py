"""M05: Rtp.tla against the real RTP depacketisers and RTCP decoders."""
import concurrent.futures as cf
import json
import random

import build
import judged
import tlc
from checks import codec, ts
from checks.io import Unit, UnitFactory, replay_unit
from common import rnd


def header(r, pt, seq, t, ssrc, mark=0, pad=0, plain=False):
    cc = 0 if plain or r.random() < .8 else r.randrange(1, 16)
    x = not plain and r.random() < .15
    b = bytes([0x80 | (pad > 0) << 5 | x << 4 | cc, mark << 7 | pt]) + (seq & 65535).to_bytes(2, "big") + (t & 0xffffffff).to_bytes(4, "big") + ssrc
    b += r.randbytes(4 * cc)
    if x:
        n = r.choice((0, 1, 1, 2, 5))
        b += r.randbytes(2) + n.to_bytes(2, "big") + r.randbytes(4 * n)
    return b


class Sender:
    def __init__(self, r, kind):
        self.r, self.kind = r, kind
        self.seq = r.choice((0, 65530, r.randrange(65536)))
        self.t = r.choice((0, 90000, 0xffffffff - 9000, r.randrange(1 << 32)))
        self.ssrc = r.randbytes(4)
        self.pt = 33 if kind == "ts" else r.choice((96, 97, 127, r.randrange(96, 128)))
        self.out = []
        self.pool = []

    def send(self, pay, mark=0):
        r = self.r
        pad = r.choice((1, 2, 4, 7)) if r.random() < .12 else 0
        b = header(r, self.pt, self.seq, self.t, self.ssrc, mark, pad) + pay
        if pad:
            b += r.randbytes(pad - 1) + bytes([pad])
        self.out.append(b)
        self.seq += 1

    def nal(self, big=False):
        r = self.r
        u = codec.nal(r, self.pool)
        if big and r.random() < .3:
            u = bytes([r.choice((0x65, 0x41))]) + codec.body(r, r.choice((200, 1400, 3000, 9000)))
        return u if (u[0] & 31) in range(1, 24) else bytes([0x41]) + u[1:]

    def h264(self, big):
        r = self.r
        self.t += r.choice((0, 3000, 3600))
        k = r.random()
        if k < .35:
            self.send(self.nal(big), r.randrange(2))
        elif k < .65:
            t = r.choice((24, 24, 25, 26, 27))
            b = bytes([t | r.choice((0, 0x60))]) + (r.randbytes(2) if t > 24 else b"")
            for _ in range(r.choice((1, 2, 2, 3, 5))):
                u = self.nal(big)
                b += len(u).to_bytes(2, "big")
                if t > 25:
                    b += r.randbytes(1) + r.choice((b"\0\0", b"\x0e\x10", r.randbytes(2)))
                if t == 27:
                    b = b[:-2] + r.choice((b"\0\0\0", b"\x01\x0e\x10", r.randbytes(3)))
                b += u
            self.send(b, r.randrange(2))
        else:
            u = self.nal(big)
            if len(u) < 3:
                u = bytes([0x65]) + codec.body(r, 40)
            n = min(len(u) - 1, r.choice((2, 2, 3, 4, 7)))
            cuts = sorted(r.sample(range(2, len(u)), n - 1)) if n > 1 else []
            parts = [u[a:b] for a, b in zip([1] + cuts, cuts + [len(u)])]
            if len(parts) < 2:
                return self.send(u)
            fub = r.random() < .1
            for i, p in enumerate(parts):
                b = bytes([u[0] & 0xe0 | (29 if fub and i == 0 else 28), (i == 0) << 7 | (i == len(parts) - 1) << 6 | u[0] & 31])
                self.send(b + (r.randbytes(2) if fub and i == 0 else b"") + p, i == len(parts) - 1)
                if i + 1 < len(parts) and r.random() < .08:
                    self.out.append(self.rtcp())

    def aac(self, big):
        r = self.r
        self.t += r.choice((0, 1024, 1920))
        us = [r.randbytes(r.choice((1, 2, 7, 90, 600 if big else 30, r.randrange(1, 200)))) for _ in range(r.choice((1, 1, 2, 3, 8)))]
        if r.random() < .03:
            us = [r.randbytes(r.choice((1, 1, 2, 3))) for _ in range(r.choice((127, 128, 129, 200, 255, 256, 300)))]
        b = (16 * len(us)).to_bytes(2, "big") + b"".join((len(u) << 3).to_bytes(2, "big") for u in us) + b"".join(us)
        self.send(b, 1)

    def rtcp(self):
        r = self.r
        b = self.rtcp1(r.choice((200, 201)))
        for _ in range(r.choice((0, 1, 1, 2))):
            b += self.rtcp1(r.choice((202, 203, 204, 201)))
        return b if r.random() < .8 else self.rtcp1(r.choice((200, 201, 202, 203, 204)))

    def rtcp1(self, pt):
        r = self.r
        c = r.choice((0, 1, 1, 2, 3, 31))
        if pt == 200:
            b = r.randbytes(24 + 24 * c)
        elif pt == 201:
            b = r.randbytes(4 + 24 * c)
        elif pt == 202:
            b = b""
            for _ in range(c):
                s = b""
                for _ in range(r.choice((0, 1, 1, 2, 4))):
                    n = r.choice((0, 1, 5, 30))
                    s += bytes([r.randrange(1, 9), n]) + r.randbytes(n)
                s += b"\0" * (4 - len(s) % 4)
                b += r.randbytes(4) + s
        elif pt == 203:
            b = r.randbytes(4 * c)
            if r.random() < .3:
                b += bytes([3]) + r.randbytes(3)
        else:
            b = r.randbytes(8 + 4 * r.randrange(3))
        return bytes([0x80 | c, pt]) + (len(b) // 4).to_bytes(2, "big") + b


def session(r, kind, n, big=False, loss=True):
    s = Sender(r, kind)
    if kind == "ts":
        pk = ts.wellformed(r, n, big=big)
        while pk:
            k = r.choice((1, 1, 2, 7))
            s.t += 3600
            s.send(b"".join(pk[:k]), r.randrange(2))
            pk = pk[k:]
            if r.random() < .1:
                s.out.append(s.rtcp())
    else:
        for _ in range(n):
            s.h264(big) if kind == "h264" else s.aac(big)
            if r.random() < .12:
                s.out.append(s.rtcp())
    out = s.out
    if loss and r.random() < .5:
        out = [b for b in out if r.random() > .08]
    return out


def damage(r, ds, kind):
    out = []
    for b in ds:
        if r.random() < .3:
            k = r.randrange(8)
            c = bytearray(b)
            if kind == "ts" and k in (1, 6, 7):
                k = 0
            if k == 0:
                c = c[:r.choice((0, 1, 2, 3, 8, 11, 12, 13, r.randrange(len(c) + 1)))]
                if kind == "ts" and len(c) > 12:
                    c = c[:12]
            elif k == 1:
                c = c[:r.randrange(len(c) + 1)]
            elif k == 2:
                c[0] = r.choice((0, 0x40, 0xc0, 0x8f, 0x90, 0xa0)) if kind != "ts" else r.choice((0, 0x40, 0xc0))
            elif k == 3:
                c[1] = r.choice((0, 34, 72, 95, 199, 200, 201, 202, 203, 204, 205)) if kind != "ts" else r.choice((0, 34, 72, 95, 200, 205))
            elif k == 4 and kind != "ts":
                c[0] |= r.choice((0x10, 0x20))
            elif k == 5:
                out.append(bytes(c))
                c = bytearray(r.randbytes(r.randrange(1, 24)))
                if kind == "ts" and len(c) > 1:
                    c[0] = 0
            elif k == 6 and len(c) > 12:
                c[r.randrange(12, min(len(c), 20))] = r.choice((0, 255, r.randrange(256)))
            elif k == 7:
                c += r.randbytes(r.choice((1, 2, 3, 4)))
            b = bytes(c)
        out.append(b)
    return [b for b in out if b]


def units(r, n):
    """single headers and RTCP packets"""
    out = []
    for _ in range(n):
        s = Sender(r, "aac")
        if r.random() < .5:
            s.pt = r.randrange(128)
            s.send(r.randbytes(r.choice((0, 1, 5, 30))), r.randrange(2))
            b = s.out[0]
            k = "H"
        else:
            b = s.rtcp1(r.choice((200, 201, 202, 202, 203, 204)))
            k = "C"
        if r.random() < .4:
            c = bytearray(b)
            if r.random() < .5:
                c = c[:r.randrange(len(c) + 1)]
                if k == "C":
                    c = c[:len(c) // 4 * 4]
            else:
                c[r.randrange(len(c))] = r.choice((0, 255, r.randrange(256)))
            if k == "C":
                if len(c) < 4:
                    continue
                c[2:4] = (len(c) // 4 - 1).to_bytes(2, "big")
            b = bytes(c)
        out.append({"mode": k, "in": b.hex()})
    return out


def ask(d, x, r):
    if x["mode"] in "HC":
        return d.ask(["%s %s" % (x["mode"], x["in"] or "-")])[0]
    return d.ask(["%s %s %s" % (x["mode"], x["kind"], " ".join(x["ds"]))])[0]


def parse(ans):
    """per datagram: error reported, packets"""
    if not (ans == "P" or ans.startswith("P ")):
        return "the driver said %s" % ans[:300]
    ds = []
    for t in ans.split()[1:]:
        if t[0] == "|":
            ds.append((t != "|0", []))
            continue
        p = t.split(",")
        msg, st, pt, cd, flags, dts, pts = map(int, p[:7])
        if (st, cd) not in ((0, 7), (1, 10)) or pt not in (0, 1) or st == 1 and flags != 0xaf:
            return "a packet of stream type %d, codec %d, packet type %d, flags %x" % (st, cd, pt, flags)
        ds[-1][1].append({"video": st == 0, "c": pt == 0, "f": flags, "d": dts if -1 << 31 < dts < 1 << 31 else -1, "p": pts, "b": list(bytes.fromhex(p[7])) if p[7] != "-" else []})
    return ds


def u32(x):
    return [int(x) >> 16, int(x) & 65535]


def hx(s):
    return list(bytes.fromhex(s)) if s != "-" else []


def record(x, ans):
    if x["mode"] == "H":
        g = {"ok": False}
        if ans != "refused":
            w = ans.split()
            if w[0] != "H":
                return "the driver said %s" % ans[:300]
            n = int(w[6])
            g = {"ok": True, "mark": int(w[1]), "pt": int(w[2]), "seq": int(w[3]), "ts": u32(w[4]), "ssrc": u32(w[5]),
                 "csrc": [u32(c) for c in w[7:7 + n]], "ext": hx(w[7 + n]), "pay": hx(w[8 + n])}
        return {"k": "head", "b": hx(x["in"] or "-"), "g": g}
    if x["mode"] == "C":
        g = {"ok": False}
        if ans != "refused":
            w = ans.split()
            if w[0] != "C":
                return "the driver said %s" % ans[:300]
            pt = int(w[1])
            w = w[2:]
            g = {"ok": True, "pt": pt}
            if pt == 200:
                for f in ("ssrc", "msw", "lsw", "ts", "pkts", "octets"):
                    g[f] = u32(w.pop(0))
            if pt == 201:
                g["ssrc"] = u32(w.pop(0))
            if pt in (200, 201):
                n, g["blocks"] = int(w.pop(0)), []
                for _ in range(n):
                    b, w = w[:7], w[7:]
                    g["blocks"].append({"ssrc": u32(b[0]), "lost": int(b[1]), "total": [int(b[2]) >> 16, int(b[2]) & 65535], "high": u32(b[3]),
                                        "jitter": u32(b[4]), "lsr": u32(b[5]), "dlsr": u32(b[6])})
            if pt == 202:
                n, g["chunks"] = int(w.pop(0)), []
                for _ in range(n):
                    c = {"ssrc": u32(w.pop(0)), "items": []}
                    for _ in range(int(w.pop(0))):
                        c["items"].append({"type": int(w.pop(0)), "b": hx(w.pop(0))})
                    g["chunks"].append(c)
        return {"k": "rtcp", "b": hx(x["in"]), "g": g}
    got = parse(ans)
    if isinstance(got, str):
        return got
    if len(got) != len(x["ds"]):
        return "%d answers to %d datagrams" % (len(got), len(x["ds"]))
    ds = [{"b": hx(h), "err": e, "out": o} for h, (e, o) in zip(x["ds"], got)]
    if x["kind"] != "ts":
        for d in ds:
            for p in d["out"]:
                if p["video"] != (x["kind"] == "h264"):
                    return "a packet of the wrong kind"
                if p["c"]:
                    p["p"] = 0
                if not p["video"]:
                    del p["f"]
                if not -1 << 31 < p["p"] < 1 << 31:
                    return "a time of %d ms" % p["p"]
    return {"k": "ts", "ds": ds} if x["kind"] == "ts" else {"k": "rtp", "codec": x["kind"], "ds": ds}


def corrupt(rec, r):
    if rec["k"] == "head":
        g = rec["g"]
        if not g["ok"]:
            return None
        f = r.choice(("mark", "pt", "seq", "pay"))
        g[f] = g[f] + [1] if f == "pay" else g[f] ^ 1
        return rec
    if rec["k"] == "rtcp":
        if not rec["g"]["ok"] or "blocks" not in rec["g"] or not rec["g"]["blocks"]:
            return None
        r.choice(rec["g"]["blocks"])["lost"] ^= 1
        return rec
    ps = [(d, p) for d in rec["ds"] for p in d["out"] if not p["c"] and p["b"]]
    if not ps:
        return None
    d, p = r.choice(ps)
    k = r.randrange(3)
    if k == 0:
        p["b"][r.randrange(len(p["b"]))] ^= 1 << r.randrange(8)
    elif k == 1:
        d["out"].insert(d["out"].index(p), dict(p))
    else:
        d["out"].remove(p)
        if rec["k"] == "ts" or sum(len(d["out"]) for d in rec["ds"]) == 0:
            return None
    return rec


def inputs(r, n, kind, gen):
    out = []
    for _ in range(n):
        ds = [b.hex() for b in gen(r)]
        if ds:
            out.append({"mode": r.choice("PPE"), "kind": kind, "ds": ds})
    return out


class Session(Unit):
    """a behaviour of RtpGen through the real depacketiser"""
    def plan(self, case, r):
        want = [dict(p, p=0) if p["c"] else dict(p) for p in case["out"]]

        def same(got):
            got = parse(got)
            if isinstance(got, str):
                return False
            out = [p for d in got for p in d[1]]
            return len(out) == len(want) and all(o["video"] and (o["c"], o["b"]) == (w["c"], w["b"]) and o["f"] == w["f"] and (o["c"] or o["p"] == w["p"])
                                                 for o, w in zip(out, want))
        same.says = json.dumps(want)[:1500]
        return [("%s h264 %s" % (r.choice("PE"), " ".join(bytes(o).hex() for o in case["ops"] if o)), same)]


def generated(ctx, deep):
    nals = [bytes.fromhex(x) for x in ("6742c01e8c", "68ce", "65880001aa55", "4100ff12", "09f0", "6764001fac03")]
    acts = {"fu", "lose", "abort", "rtcp", "junk"}
    alld = {"plain", "csrc", "ext", "pad", "all"}

    def job(n, ops, nal, kinds, acts, dress, sim=None):
        return n, dict(Nals=codec.tset(nals[:nal]), Kinds=kinds or tlc.Raw("{}"), Acts=acts, First=65534, MaxOps=ops, Dress=dress), sim
    jobs = [job("one datagram of any kind", 1, 6, {24, 25, 26, 27}, acts, alld),
            job("single units, aggregates and fragments with losses and junk", 3, 4, {24}, acts - {"rtcp"}, {"plain"}),
            job("fragments with losses", 5, 4, None, {"fu", "lose", "abort"}, {"plain"}),
            job("aggregates, reports and dressed headers", 2, 4, {24, 26}, acts, {"plain", "all"}),
            job("long sessions", 14, 6, {24, 25, 26, 27}, acts, alld, 25 if deep < 2 else 300)]
    if deep > 1:
        jobs += [job("two datagrams of any kind", 2, 6, {24, 25, 26, 27}, acts, alld),
                 job("deeper sessions", 4, 4, {24}, acts - {"rtcp"}, {"plain"})]
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build.build, "drv_rtp", "san")
        fs = []
        for n, c, sim in jobs:
            cfg = tlc.cfg_text(c, spec="Spec", invariants=("Sure", "Conserved"), action_constraint="Emit", view=None if sim else "View")
            fs.append((n, ex.submit(tlc.run, "RtpGen", cfg, simulate=sim, depth=60 if sim else None, seed=ctx.seed if sim else None)))
        fac = UnitFactory(Session, fb.result(), ctx.seed)
        for n, f in fs:
            cases = [c for c in ctx.model(n, f.result()).behaviours if any(c["ops"])]
            cases = list({json.dumps(c["ops"]): c for c in cases}.values())
            lim = 4000 if deep < 2 else 40000
            if len(cases) > lim:
                cases = sorted(cases, key=lambda x: rnd(ctx.seed, str(x["ops"])))[:lim]
            if not ctx.replay(n, cases, fac):
                return None
    return fac.exe


def m05(ctx):
    q = ctx.quick
    exe = generated(ctx, 1 if q else 3)
    if not exe:
        return
    r = random.Random(rnd(ctx.seed, "m05", ctx.tier))
    k = 1 if q else 10
    sets = [("H.264 sessions", inputs(r, 250 * k, "h264", lambda r: session(r, "h264", r.choice((2, 5, 10)), big=r.random() < .3)), corrupt),
            ("damaged H.264 sessions", inputs(r, 350 * k, "h264", lambda r: damage(r, session(r, "h264", r.choice((2, 5, 8))), "h264")), None),
            ("AAC sessions", inputs(r, 120 * k, "aac", lambda r: session(r, "aac", r.choice((1, 3, 6)), big=r.random() < .3)), corrupt),
            ("damaged AAC sessions", inputs(r, 250 * k, "aac", lambda r: damage(r, session(r, "aac", r.choice((1, 3, 6))), "aac")), None),
            ("transport streams", inputs(r, 120 * k, "ts", lambda r: session(r, "ts", r.choice((3, 8, 14)), big=r.random() < .3)), corrupt),
            ("transport streams among other datagrams", inputs(r, 120 * k, "ts", lambda r: damage(r, session(r, "ts", r.choice((3, 8)), loss=False), "ts")), None),
            ("headers and reports", units(r, 1200 * k), corrupt)]
    for n, xs, c in sets:
        if not judged.recorded(ctx, exe, xs, n, "RtpTrace", ask, record, c):
            return


def replay(ctx, rec):
    exe = build.build("drv_rtp", "san")
    if "judged" in rec:
        return judged.replay_one(ctx, exe, "RtpTrace", ask, record, rec["input"])
    return replay_unit(ctx, rec, Session, exe)
