"""M03 S07: Ts.tla and TsRelay.tla against the real transport stream demuxer and relay."""
import concurrent.futures as cf
import json
import random

import build
import judged
import tlc
from checks import codec
from checks.io import Unit, UnitFactory, replay_unit
from common import rnd

SEGS = ["1", "187", "188", "189", "376", "1316", "1000000000", "13,1,1", "1024", "188,1"]


def crc32(b):
    c = 0xffffffff
    for x in b:
        c ^= x << 24
        for _ in range(8):
            c = (c << 1 ^ 0x04c11db7) & 0xffffffff if c >> 31 else c << 1
    return c.to_bytes(4, "big")


def section(table, ext, body, current=1, version=0):
    n = 5 + len(body) + 4
    s = bytes([table, 0xb0 | n >> 8, n & 255]) + ext.to_bytes(2, "big") + bytes([0xc0 | version << 1 | current, 0, 0]) + body
    return s + crc32(s)


def pat(entries, **k):
    return section(0, 1, b"".join(p.to_bytes(2, "big") + (0xe000 | pid).to_bytes(2, "big") for p, pid in entries), **k)


def pmt(prog, pcr, streams, info=b"", **k):
    b = (0xe000 | pcr).to_bytes(2, "big") + (0xf000 | len(info)).to_bytes(2, "big") + info
    for t, pid, d in streams:
        b += bytes([t]) + (0xe000 | pid).to_bytes(2, "big") + (0xf000 | len(d)).to_bytes(2, "big") + d
    return section(2, prog, b, **k)


def stamp(mark, t):
    return bytes([mark << 4 | (t >> 30) << 1 | 1]) + ((t >> 15 & 0x7fff) << 1 | 1).to_bytes(2, "big") + ((t & 0x7fff) << 1 | 1).to_bytes(2, "big")


def pes(r, sid, data, pts, dts, bounded, plain=False):
    f, h = 0, b""
    if pts is not None:
        f |= 0x80
        if dts is not None and dts != pts:
            f |= 0x40
            h += stamp(3, pts) + stamp(1, dts)
        else:
            h += stamp(2, pts)
    if not plain:
        if r.random() < .1:
            f |= 0x20
            h += r.randbytes(6)
        if r.random() < .1:
            f |= 0x10
            h += r.randbytes(3)
        if r.random() < .06:
            f |= 8
            h += r.randbytes(1)
        if r.random() < .06:
            f |= 4
            h += r.randbytes(1)
        if r.random() < .06:
            f |= 2
            h += r.randbytes(2)
        if r.random() < .08:
            f |= 1
            x = r.choice((0, 0x80, 0x40, 0x20, 0x10, 1, 0xf1))
            h += bytes([x])
            if x & 0x80:
                h += r.randbytes(16)
            if x & 0x40:
                n = r.randrange(0, 6)
                h += bytes([n]) + r.randbytes(n)
            if x & 0x20:
                h += r.randbytes(2)
            if x & 0x10:
                h += r.randbytes(2)
            if x & 1:
                n = r.randrange(0, 6)
                h += bytes([0x80 | n]) + r.randbytes(n)
        if r.random() < .2:
            h += b"\xff" * r.randrange(1, 12)
    n = 3 + len(h) + len(data)
    if n > 65535:
        bounded = False
    return b"\0\0\1" + bytes([sid]) + (n if bounded else 0).to_bytes(2, "big") + bytes([0x80 | r.randrange(16), f, len(h)]) + h + data


def af(r, n, plain):
    """an adaptation field of n bytes in all (n >= 1)"""
    if n == 1:
        return b"\0"
    flags, b, left = 0, b"", n - 2
    if not plain:
        flags = r.choice((0, 0, 0x40, 0x20))
        if left >= 6 and r.random() < .4:
            flags |= 0x10
            b += r.randbytes(6)
            left -= 6
        if left >= 6 and r.random() < .1:
            flags |= 8
            b += r.randbytes(6)
            left -= 6
        if left >= 1 and r.random() < .1:
            flags |= 4
            b += r.randbytes(1)
            left -= 1
        if left >= 1 and r.random() < .15:
            flags |= 2
            k = r.randrange(0, left)
            b += bytes([k]) + r.randbytes(k)
            left -= 1 + k
        if left >= 2 and r.random() < .05:
            flags |= 1
            k = r.randrange(1, left)
            b += bytes([k, 0]) + r.randbytes(k - 1)
            left -= 1 + k
    return bytes([n - 1, flags]) + b + b"\xff" * left


class Mux:
    def __init__(self, r, plain=False):
        self.r = r
        self.plain = plain
        self.cc = {}
        self.out = []

    def packet(self, pid, pusi, data, fill=True):
        """data of at most 184 bytes; the rest is stuffing in an adaptation field"""
        r = self.r
        room = 184 - len(data)
        c = self.cc.get(pid)
        c = r.randrange(16) if c is None else (c + (len(data) > 0)) % 16
        self.cc[pid] = c
        ctl = (2 if room else 0) | (1 if data else 0)
        b = bytes([0x47, pusi << 6 | (r.random() < .05) << 5 | pid >> 8, pid & 255, ctl << 4 | c])
        b += (af(r, room, self.plain) if room else b"") + data
        self.out.append(b)

    def table(self, pid, sec, before=b""):
        data = bytes([len(before)]) + before + sec
        self.packet(pid, 1, data + b"\xff" * (184 - len(data)))


STYPES = {"v": 0x1b, "a": 0x0f}


class Stream:
    """a programme, sent in random order"""
    def __init__(self, r, big=False, plain=False):
        self.r, self.m = r, Mux(r, plain)
        self.plain = plain
        self.big = big
        pids = r.sample(range(0x20, 0x1ff0), 6)
        self.pmtpid, self.vpid, self.apid, self.opid, self.hpid, self.strange = pids
        self.streams = []
        kinds = r.choice((["v"], ["a"], ["v", "a"], ["v", "a"], ["a", "v", "o"], ["o", "v", "h"]))
        for k in kinds:
            t, pid = {"v": (0x1b, self.vpid), "a": (0x0f, self.apid), "o": (r.choice((6, 0x81, 3)), self.opid), "h": (0x24, self.hpid)}[k]
            self.streams.append((t, pid, r.randbytes(r.randrange(1, 5)) if r.random() < .3 else b""))
        self.info = r.randbytes(r.randrange(1, 9)) if r.random() < .2 else b""
        self.entries = ([(0, 0x10)] if r.random() < .3 else []) + [(r.randrange(1, 65536), self.pmtpid)]
        self.q = {pid: [] for _, pid, _ in self.streams}       # pieces to send
        self.t = r.choice((0, 90000, (1 << 33) - 900000, r.randrange(1 << 33)))
        self.pool = []
        self.prof = (r.randrange(4), r.randrange(13), r.randrange(8))

    def au(self, t):
        r = self.r
        if t == 0x1b:
            b = b""
            for _ in range(r.choice((1, 1, 2, 3))):
                b += b"\0" * r.choice((0, 1)) + b"\0\0\1" + codec.nal(r, self.pool)
            if self.big and r.random() < .4:
                b += b"\0\0\1" + b"\x65" + codec.body(r, r.choice((170, 183, 184, 185, 300, 368, 700)))
            return b
        if t == 0x0f:
            if r.random() < .1:
                self.prof = (r.randrange(4), r.randrange(13), r.randrange(8))
            return b"".join(codec.adts(r, *self.prof, r.choice((1, 2, 9, 40, 200 if self.big else 3))) for _ in range(r.choice((1, 1, 2, 3))))
        return r.randbytes(r.randrange(1, 60))

    def tables(self):
        r = self.r
        if r.random() < .1:
            self.m.table(0x11, section(0x42, 1, r.randbytes(r.randrange(1, 60))))
        self.m.table(0, pat(self.entries), r.randbytes(r.choice((0, 0, 0, 3))))
        if r.random() < .05:
            self.m.table(self.pmtpid, section(r.choice((0xc0, 0x40)), 1, r.randbytes(20)))
        self.m.table(self.pmtpid, pmt(self.entries[-1][0], self.streams[0][1], self.streams, self.info), r.randbytes(r.choice((0, 0, 0, 1))))

    def step(self):
        r = self.r
        k = r.random()
        if k < .06:
            self.tables()
        elif k < .1:
            self.m.packet(0x1fff, 0, r.randbytes(184))
        elif k < .13:
            self.m.packet(self.strange, r.randrange(2), r.randbytes(r.randrange(1, 185)))
        elif k < .17:
            pid = r.choice(self.streams)[1]
            if pid in self.m.cc:
                self.m.packet(pid, 0, b"")        # adaptation field only
        elif k < .2 and self.m.out and r.random() < .6:
            b = self.m.out[-1]
            if (b[3] >> 4) & 1:
                self.m.out.append(b)     # sent twice
        else:
            t, pid, _ = r.choice(self.streams)
            q = self.q[pid]
            if not q:
                data = self.au(t)
                pts = dts = None
                if r.random() < .93:
                    dts = self.t % (1 << 33)
                    pts = (dts + r.choice((0, 0, 3600, 7200))) % (1 << 33)
                self.t += r.choice((1800, 3600, 3003))
                if t == 0x1b and r.random() < .04:
                    p = b"\0\0\1\xbe\0\x14" + b"\xff" * 20
                else:
                    p = pes(r, {0x1b: 0xe0, 0x0f: 0xc0}.get(t, 0xbd), data, pts, dts, r.random() < (.4 if t == 0x1b else .9), self.plain)
                i = 0
                while i < len(p):
                    n = r.choice((184, 184, r.randrange(1, 185), 183, 182)) if i else r.choice((184, 184, 184, max(60, r.randrange(60, 185)), 182, 183))
                    q.append((i == 0, p[i:i + n]))
                    i += n
            first, piece = q.pop(0)
            self.m.packet(pid, int(first), piece)

    def close(self):
        """everything that was begun, and one more unit start on every stream"""
        for t, pid, _ in self.streams:
            for first, piece in self.q[pid]:
                self.m.packet(pid, int(first), piece)
            self.q[pid] = []
            if self.r.random() < .7:
                self.m.packet(pid, 1, pes(self.r, 0xe0 if t == 0x1b else 0xc0, self.au(t) if t == 0x1b else self.au(t), 0, 0, True, True)[:184])


def wellformed(r, n, big=False, plain=False):
    s = Stream(r, big, plain)
    if r.random() < .12:        # joined amid the stream
        for _ in range(6):
            s.step()
        if r.random() < .6:
            s.m.out.clear()
    s.tables()
    for _ in range(n):
        s.step()
    if r.random() < .8:
        s.close()
    return s.m.out


def damage(r, pk):
    pk = [bytearray(b) for b in pk]
    for _ in range(r.choice((1, 1, 2, 3))):
        if not pk:
            break
        i = r.randrange(len(pk))
        b = pk[i]
        k = r.randrange(11)
        if k == 0:
            del pk[i]
        elif k == 1:
            b[r.randrange(188)] ^= 1 << r.randrange(8)
        elif k == 2:
            b[3] = b[3] & 0xf0 | r.randrange(16)
        elif k == 3:
            b[3] = b[3] & 0x0f | r.randrange(16) << 4
        elif k == 4:
            b[4] = r.choice((0, 1, 2, 7, 182, 183, 184, 255, r.randrange(256)))
        elif k == 5:
            b[r.randrange(4, 20)] = r.choice((0, 255, r.randrange(256)))
        elif k == 6:
            b[1] ^= 0x40
        elif k == 7:
            j = min(i + 1, len(pk) - 1)
            pk[i], pk[j] = pk[j], pk[i]
        elif k == 8:
            x = r.randrange(4, 180)
            b[x:x + 4] = r.randbytes(4)
        elif k == 9:     # a table with lengths that do not fit
            ts = [c for c in pk if c[1] & 0x40 and (c[3] >> 4) == 1 and c[5] in (0, 2) and c[6] >> 4 == 0xb]
            if ts:
                c = r.choice(ts)
                x = r.choice((6, 7, 7, 7, 15, 16, 20, 21))
                c[x] = r.choice((0, 255, 0xb3, c[x] ^ 1, r.randrange(256)))
                if r.random() < .6:      # with a good checksum, if the section still fits
                    n = (c[6] & 15) << 8 | c[7]
                    if 9 <= n and 8 + n <= 188:
                        c[8 + n - 4:8 + n] = crc32(bytes(c[5:8 + n - 4]))
        else:
            pk.insert(i, bytearray(b))
    return [bytes(b) for b in pk]


def ask(d, x, r):
    if x["mode"] == "M":
        n = x["chunk"] * 376
        h = x["in"]
        return d.ask(["M " + " ".join(h[i:i + n] for i in range(0, len(h), n))])[0]
    if x["mode"] == "R":
        return d.ask(["R " + " ".join(x["ops"])])[0]
    return d.ask(["T %s %s" % (x["seg"], x["in"] or "-")])[0]


def parse(ans):
    if not ans.startswith("P"):
        return "the driver said %s" % ans[:300]
    pk = []
    for t in ans.split()[1:]:
        msg, st, pt, cd, flags, dts, pts, h = t.split(",")
        msg, st, pt, cd, flags, dts, pts = map(int, (msg, st, pt, cd, flags, dts, pts))
        if (st, cd) not in ((0, 7), (1, 10)) or pt not in (0, 1) or not (-1 << 31 < dts < 1 << 31 and -1 << 31 < pts < 1 << 31):
            return "a packet of stream type %d, codec %d, packet type %d, time stamps %d, %d" % (st, cd, pt, dts, pts)
        if st == 1 and flags != 0xaf:
            return "an AAC packet with flags %x" % flags
        pk.append({"video": st == 0, "c": pt == 0, "f": flags, "d": dts, "p": pts, "b": list(bytes.fromhex(h)) if h != "-" else []})
    return pk


def record(x, ans):
    if x["mode"] == "R":
        return relay_record(x, ans)
    out = parse(ans)
    if isinstance(out, str):
        return out
    return {"k": "ts", "in": list(bytes.fromhex(x["in"])), "out": out}


def relay_record(x, ans):
    got = ans.split()
    if got[0] != "R":
        return "the driver said %s" % ans[:300]
    got = got[1:]
    ops, err = [], got[-1:] == ["e"]
    for o in x["ops"]:
        if o == "j":
            ops.append({"op": "join"})
        elif o[0] == "d":
            if not got or got[0] == "e":
                break
            g = got.pop(0)
            ops.append({"op": "drain", "c": int(o[1:]), "got": [list(bytes.fromhex(p)) for p in g.split(":")[1:]]})
        else:
            ops.append({"op": "put", "b": list(bytes.fromhex(o)), "err": False})
    if err:       # which packet was refused is not reported: no step is compared after it
        return "the relay refused a packet of a well-formed stream"
    return {"k": "relay", "ops": ops}


def corrupt(rec, r):
    if rec["k"] == "relay":
        ds = [o for o in rec["ops"] if o["op"] == "drain" and len(o["got"]) > 3]
        if not ds:
            return None
        o = r.choice(ds)
        i = r.randrange(2, len(o["got"]))
        k = r.randrange(3)
        if k == 0:
            o["got"][i][r.randrange(188)] ^= 1
        elif k == 1:
            o["got"].insert(i, o["got"][i])
        else:
            del o["got"][i]
        return rec
    fr = [p for p in rec["out"] if not p["c"] and p["b"]]
    if not fr:
        return None
    p = fr[0]
    if r.random() < .5:
        p["b"][r.randrange(len(p["b"]))] ^= 1 << r.randrange(8)
    else:
        rec["out"].insert(rec["out"].index(p), dict(p))
    return rec


def inputs(r, n, gen):
    out = []
    for _ in range(n):
        pk = gen(r)
        b = b"".join(pk).hex()
        if r.random() < .25:
            out.append({"mode": "M", "chunk": r.choice((1, 2, 7)), "in": b})
        else:
            out.append({"mode": "T", "seg": r.choice(SEGS), "in": b})
    return out


def relay_inputs(r, n):
    out = []
    for _ in range(n):
        pk = wellformed(r, r.choice((4, 10, 18)), big=True)
        ops, m = [], 0
        for b in pk:
            if r.random() < .18 and m < 6:
                ops.append("j")
                m += 1
                if r.random() < .7:
                    ops.append("d%d" % (m - 1))
            if m and r.random() < .1:
                ops.append("d%d" % r.randrange(m))
            ops.append(b.hex())
        ops.append("j")
        m += 1
        ops += ["d%d" % k for k in range(m)]
        out.append({"mode": "R", "ops": ops})
    return out


class Session(Unit):
    """a behaviour of TsGen through the real demultiplexer and relay"""
    def plan(self, case, r):
        cmd, joins = [], 0
        for o in case["ops"]:
            if o["op"] == "put":
                cmd.append(bytes(o["b"]).hex())
            elif o["op"] == "join":
                cmd.append("j")
                joins += 1
        cmd += ["d%d" % k for k in range(joins)]

        def frames(l, o):
            return len(l) == len(o) and all(p["c"] == w["c"] and p["b"] == w["b"] and
                                            (p["c"] or abs(p["d"] - w["d"]) <= (not p["video"])) for p, w in zip(o, l))

        def same(got):
            got = got.split()
            if got[0] != "G" or "e" in got:
                return False
            out = parse(" ".join(["P"] + [g[1:] for g in got if g[0] == "p"]))
            if isinstance(out, str):
                return False
            for k in ("video", "audio"):
                o = [p for p in out if p["video"] == (k == "video")]
                lo, hi = case[k], case[k + "2"]
                if len(o) < len(lo) or not frames(hi[:len(o)], o):
                    return False
            ds = [[list(bytes.fromhex(h)) for h in g.split(":")[1:]] for g in got if g[0] == "d"]
            for d, e in zip(ds, case["q"]):
                if d != e["l"] and not (e["alt"] and d == e["head"] + e["l"][e["n"]:]):
                    return False
            return len(ds) == joins
        same.says = json.dumps({k: case[k] for k in ("video", "audio", "video2", "audio2")})[:1500]
        return [("G " + " ".join(cmd), same)]


def generated(ctx, deep):
    hx = bytes.fromhex
    v = [hx("0000016742c01e8c00000168ce0000016588"), hx("0000014100ff"), hx("000001674d401e4a000001684e00000165aa")]
    r0 = random.Random(7)
    a = [codec.adts(r0, 1, 4, 2, 2), codec.adts(r0, 1, 3, 2, 3) + codec.adts(r0, 1, 3, 2, 1)]
    base = dict(VAus=codec.tset(v), AAus=codec.tset(a), MaxJoins=2)
    allacts = {"tables", "join", "lose", "twice", "bare", "null", "stray"}
    jobs = [("multiplexer, every behaviour", dict(base, Cuts={24, 184}, Acts=allacts, MaxOps=5 if deep < 2 else 6), None),
            ("multiplexer without losses, every behaviour", dict(base, Cuts={24, 184}, Acts={"tables"}, MaxOps=5 if deep < 2 else 7), None),
            ("long multiplexes", dict(base, Cuts={20, 24, 31, 184}, Acts=allacts, MaxOps=20), 60 * deep * deep),
            ("long multiplexes with joins", dict(base, Cuts={20, 30, 184}, Acts=allacts - {"lose"}, MaxOps=24, MaxJoins=5), 60 * deep * deep)]
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build.build, "drv_ts", "san")
        fs = []
        for n, c, sim in jobs:
            cfg = tlc.cfg_text(c, spec="Spec", invariants=("Certain", "Clear", "Conserved", "Joined"), action_constraint="Emit", view=None if sim else "View")
            fs.append((n, ex.submit(tlc.run, "TsGen", cfg, simulate=sim, depth=60 if sim else None, seed=ctx.seed if sim else None)))
        fac = UnitFactory(Session, fb.result(), ctx.seed)
        for n, f in fs:
            cases = ctx.model(n, f.result()).behaviours
            cases = list({json.dumps(c["ops"]): c for c in cases}.values())
            lim = 3000 if deep < 2 else 20000
            if len(cases) > lim:
                cases = sorted(cases, key=lambda x: rnd(ctx.seed, str(x["ops"])))[:lim]
            if not ctx.replay(n, cases, fac):
                return None
    return fac.exe


def m03(ctx):
    q = ctx.quick
    exe = generated(ctx, 1 if q else 3)
    if not exe:
        return
    r = random.Random(rnd(ctx.seed, "m03", ctx.tier))
    k = 1 if q else 10
    sets = [("well-formed streams", inputs(r, 260 * k, lambda r: wellformed(r, r.choice((2, 5, 9, 14)))), corrupt),
            ("streams with large access units", inputs(r, 120 * k, lambda r: wellformed(r, r.choice((6, 14, 22)), big=True)), corrupt),
            ("damaged streams", inputs(r, 500 * k, lambda r: damage(r, wellformed(r, r.choice((2, 5, 9)), big=r.random() < .3))), None)]
    for n, xs, c in sets:
        if not judged.recorded(ctx, exe, xs, n, "TsTrace", ask, record, c):
            return


def s07(ctx):
    q = ctx.quick
    exe = generated(ctx, 1 if q else 3)
    if not exe:
        return
    r = random.Random(rnd(ctx.seed, "s07", ctx.tier))
    judged.recorded(ctx, exe, relay_inputs(r, 200 if q else 3000), "relayed streams", "TsTrace", ask, record, corrupt)


def replay(ctx, rec):
    exe = build.build("drv_ts", "san")
    if "judged" in rec:
        return judged.replay_one(ctx, exe, "TsTrace", ask, record, rec["input"])
    return replay_unit(ctx, rec, Session, exe)
