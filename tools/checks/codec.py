"""M04: Annexb.tla and Adts.tla against the real H.264 and AAC parsers."""
import concurrent.futures as cf
import json
import random

import build
import judged
import tlc
from checks.io import Unit, UnitFactory, replay_unit
from common import rnd


def parse(ans, kind):
    """one answer of the driver: [None (refused) or packets]; a text: not expressible"""
    aus = []
    for part in ans.split(" | "):
        t = part.split()
        if not t or t[0] not in "FP":
            return "the driver said %s" % ans[:300]
        if t[0] == "F":
            aus.append(None)
            continue
        pk = []
        for x in t[1:]:
            msg, st, pt, codec, flags, dts, pts, h = x.split(",")
            msg, st, pt, codec, flags, dts, pts = map(int, (msg, st, pt, codec, flags, dts, pts))
            if st != (0 if kind == "h264" else 1) or codec != (7 if kind == "h264" else 10) or pt not in (0, 1):
                return "a packet of stream type %d, codec %d, packet type %d" % (st, codec, pt)
            if not (-1 << 31 < dts < 1 << 31 and -1 << 31 < pts < 1 << 31):
                return "a packet with the time stamps %d and %d" % (dts, pts)
            pk.append({"c": pt == 0, "f": flags, "d": dts, "p": pts, "b": list(bytes.fromhex(h)) if h != "-" else []})
        aus.append(pk)
    return aus


def digits(n):
    if n < 0:
        return []
    r = []
    while n:
        r.append(n % 1000)
        n //= 1000
    return r[::-1]


def ask(d, x, r):
    return d.ask(["S %s %s" % (x["k"], " ".join("%s:%d:%d:%d:%s" % (u["op"], u["d"], u["p"], u["tb"], u["in"] or "-") for u in x["aus"]))])[0]


def record(x, ans):
    out = parse(ans, x["k"])
    if isinstance(out, str):
        return out
    if len(out) != len(x["aus"]):
        return "%d answers to %d access units" % (len(out), len(x["aus"]))
    return {"k": x["k"], "aus": [{"op": u["op"], "d": digits(u["d"]), "p": digits(u["p"]), "tb": u["tb"], "in": list(bytes.fromhex(u["in"])),
                                  "v": "fail" if o is None else "ok", "out": o or []} for u, o in zip(x["aus"], out)]}


def corrupt(rec, r):
    us = [u for u in rec["aus"] if u["out"]]
    if not us:
        return None
    u = r.choice(us)
    p = r.choice(u["out"])
    k = r.randrange(4)
    if k == 0:
        u["out"].append(dict(p, c=False))
    elif k == 1 and p["b"]:
        p["b"][r.randrange(len(p["b"]))] ^= 1 << r.randrange(8)
    elif k == 2:
        u["v"], u["out"] = "fail", []
    elif rec["k"] == "aac" and p["c"]:      # may be a repetition
        return None
    else:
        u["out"].remove(p)
    return rec


# ---- inputs
def stamps(r):
    tb = r.choice((90, 90, 90, 1))
    d = r.choice((0, 89, 90, 3600, r.randrange(1 << 20), r.randrange(1 << 31), r.randrange(1 << 33) if tb == 90 else 5, (1 << 33) - 1 if tb == 90 else (1 << 31) - 1000))
    if tb == 1:
        d = min(d, (1 << 31) - 1000000)
    return {"d": d, "p": min(d + r.choice((0, 0, 3600, 90 * 100)), (1 << 33) - 1 if tb == 90 else (1 << 31) - 1), "tb": tb}


def ue(v):
    b = bin(v + 1)[2:]
    return "0" * (len(b) - 1) + b


def bits(s):
    s += "1"
    s += "0" * (-len(s) % 8)
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def safe(b):
    """payload bytes without anything that looks like a start code and no zero at the end"""
    out = bytearray()
    z = 0
    for c in b:
        if z >= 2 and c <= 3:
            out.append(3)
            z = 0
        out.append(c)
        z = z + 1 if c == 0 else 0
    if out and out[-1] == 0:
        out.append(0x80)
    return bytes(out)


def body(r, n):
    return safe(bytes(r.choice((0, 0, 1, 2, 3, 255, r.randrange(256))) for _ in range(n)))


def nal(r, pool):
    k = r.random()
    if k < .22:
        i = r.choice((0, 0, 0, 1, 2, 30))
        u = bytes([0x67]) + bytes((r.choice((66, 77, 100)), r.choice((0, 0xc0, 0xe0)), r.choice((30, 31, 40)))) + bits(ue(i) + "".join(r.choice("01") for _ in range(r.randrange(0, 20))))
    elif k < .45:
        i = r.choice((0, 0, 0, 1, 3, 77, 254))
        u = bytes([r.choice((0x68, 0x28))]) + bits(ue(i) + ue(0) + "".join(r.choice("01") for _ in range(r.randrange(0, 12))))
    elif k < .9:
        t = r.choice((1, 1, 1, 5, 5, 6))
        u = bytes([r.choice((0, 0x20, 0x40, 0x60)) | t]) + body(r, r.choice((0, 1, 2, 3, 5, 9, 40)))
    else:
        t = r.choice((9, 9, 12, 10, 11, 13, 19, 24, 0, 31))
        u = bytes([t]) + body(r, r.choice((0, 1, 4)))
    if u[0] == 0:
        u = b"\x20" + u[1:]
    if r.random() < .35 and pool:
        u = r.choice(pool)
    pool.append(u)
    return u


def h264(r, damage):
    pool, aus = [], []
    for _ in range(r.choice((1, 2, 3, 4, 6))):
        if r.random() < .25:
            aus.append(dict(stamps(r), op="raw", **{"in": nal(r, pool).hex()}))
            continue
        b = bytearray(b"\0" * r.choice((0, 0, 1, 3)))
        for _ in range(r.choice((1, 1, 2, 3, 4))):
            b += b"\0" * r.choice((0, 0, 1, 1, 2)) + b"\0\0\1" + nal(r, pool)
        b += b"\0" * r.choice((0, 0, 0, 1, 4))
        if damage and r.random() < .5:
            b = harm(r, b)
        aus.append(dict(stamps(r), op="au", **{"in": bytes(b).hex()}))
    return {"k": "h264", "aus": aus}


def harm(r, b):
    b = bytearray(b)
    k = r.randrange(6)
    if k == 0 and b:
        b = b[:r.randrange(len(b) + 1)]
    elif k == 1 and b:
        b[r.randrange(len(b))] = r.choice((0, 1, 255, 128, r.randrange(256)))
    elif k == 2 and b:
        i = r.randrange(len(b))
        del b[i:i + r.randrange(1, 5)]
    elif k == 3:
        b = bytearray(r.choice((0, 0, 1, 255, r.randrange(256))) for _ in range(r.randrange(0, 14)))
    elif k == 4:
        i = r.randrange(len(b) + 1)
        b[i:i] = bytes(r.choice((0, 1, 0xff, 0xf1)) for _ in range(r.randrange(1, 5)))
    elif b:
        b = b + b[r.randrange(len(b)):]
    return b


def adts(r, prof, sfi, chan, n, pa=1, ver=0, layer=0, blocks=0, copy=0):
    h = 7 if pa else 9
    ln = h + n
    b = bytearray(h)
    b[0] = 0xff
    b[1] = 0xf0 | ver << 3 | layer << 1 | pa
    b[2] = prof << 6 | sfi << 2 | r.randrange(2) << 1 | chan >> 2
    b[3] = (chan & 3) << 6 | copy << 4 | r.randrange(4) << 2 | ln >> 11
    b[4] = (ln >> 3) & 255
    b[5] = (ln & 7) << 5 | r.randrange(32)
    b[6] = r.randrange(64) << 2 | blocks
    if not pa:
        b[7] = r.randrange(256)
        b[8] = r.randrange(256)
    return bytes(b) + bytes(r.choice((0, 255, 0xf1, r.randrange(256))) for _ in range(n))


def aac(r, damage):
    aus = []
    p = (r.randrange(4), r.randrange(13), r.randrange(8))
    soft = (r.randrange(2), r.randrange(2), r.choice((0, 0, 3)))
    for _ in range(r.choice((1, 2, 3, 5))):
        b = bytearray()
        for _ in range(r.choice((1, 1, 2, 3, 7, 12)) if r.random() > .04 else 0):
            k = r.random()
            if k < .06:
                p = (r.randrange(4), p[1], p[2])
            elif k < .12:
                p = (p[0], r.randrange(13), p[2])
            elif k < .18:
                p = (p[0], p[1], r.randrange(8))
            elif k < .26:
                soft = (r.randrange(2), r.randrange(2), r.choice((0, 1, 2, 3)))
            layer, blocks, sfi = (r.randrange(4), r.randrange(4), r.randrange(16)) if damage and r.random() < .04 else (0, 0, p[1])
            b += adts(r, p[0], sfi, p[2], r.choice((1, 2, 3, 8, 20, 60)) if r.random() < .97 else r.choice((1016, 2040, 2041, 2042, 3000)), soft[0], soft[1], layer, blocks, soft[2])
        if damage and r.random() < .5:
            b = harm(r, b)
        aus.append(dict(stamps(r), op="au", **{"in": bytes(b).hex()}))
    return {"k": "aac", "aus": aus}



# ---- sessions from the specification
class Session(Unit):
    def plan(self, case, r):
        kind, aus = case["kind"], case["h"]
        x = {"k": kind, "aus": [{"op": "au", "d": 3600 * n, "p": 3600 * (n + 1), "tb": 90, "in": bytes(u["in"]).hex()} for n, u in enumerate(aus)]}

        def same(got):
            out = parse(got, kind)
            if isinstance(out, str) or len(out) != len(aus):
                return False
            last = None
            for u, o in zip(aus, out):
                if kind == "aac" and o:      # repeating the configuration is allowed
                    keep = []
                    for p in o:
                        if not (p["c"] and p["b"] == last):
                            keep.append(p)
                        if p["c"]:
                            last = p["b"]
                    o = keep
                if (o is None) != (u["v"] == "fail"):
                    return False
                if o is None:
                    continue
                if len(o) != len(u["out"]):
                    return False
                for p, w in zip(o, u["out"]):
                    if p["c"] != w["c"] or p["b"] != w["b"]:
                        return False
                    if kind == "h264" and p["f"] != w["f"] or kind == "aac" and p["f"] != 0xaf:
                        return False
                    if not p["c"] and (abs(p["d"] - w["d"]) > (kind == "aac") or p["p"] != (w["p"] if kind == "h264" else p["d"])):
                        return False
            return True
        same.says = json.dumps(case)[:1500]
        return [(cmdline(x), same)]


def cmdline(x):
    return "S %s %s" % (x["k"], " ".join("%s:%d:%d:%d:%s" % (u["op"], u["d"], u["p"], u["tb"], u["in"] or "-") for u in x["aus"]))


def tup(b):
    return "<<%s>>" % ", ".join(str(c) for c in b)


def tset(bs):
    return tlc.Raw("{%s}" % ", ".join(tup(b) for b in bs))


def m04(ctx):
    q = ctx.quick
    hx = bytes.fromhex
    sps0, sps0b, sps1 = hx("6742c01e8c"), hx("6764001fac03"), hx("674d401e4a")
    pps0, pps0b, pps1 = hx("68ce"), hx("68de80"), hx("684e")
    idr, p, sei, aud, fil = hx("65880001"), hx("4100ff"), hx("0605"), hx("09f0"), hx("0cff")
    codes = tset([b"\0\0\1", b"\0\0\0\1"])
    allu = [sps0, sps0b, sps1, pps0, pps0b, pps1, idr, p, sei, aud, fil, hx("e5")]
    r0 = random.Random(7)
    f1 = adts(r0, 1, 4, 2, 2)
    f1c = adts(r0, 1, 4, 2, 1, pa=0)
    f2 = adts(r0, 1, 3, 2, 3)
    f3 = adts(r0, 0, 4, 1, 1)
    cut = adts(r0, 1, 4, 2, 3)[:8]
    short = bytearray(adts(r0, 1, 4, 2, 0))
    short[4], short[5] = 0, 0xbf      # a frame of 5 bytes
    junk = b"\x12\x34\x56\x78\x9a\xbc\xde\xf0"
    al = [f1, f1c, f2, f3, cut, bytes(short), junk]
    jobs = [("H.264: one access unit of up to %d units" % (3 if q else 4), dict(Kind="h264", Alphabet=tset(allu), Gaps=codes, Tails=tset([b"", b"\0"]) if not q else tset([b"\0"]),
                                                          MaxUnits=3, MaxAus=1), None, "EmitAll"),
            ("H.264: parameter sets over access units", dict(Kind="h264", Alphabet=tset([sps0, sps0b, sps1, pps0, pps1, idr] if q else [sps0, sps0b, sps1, pps0, pps0b, pps1, idr, hx("e5")]),
                                                           Gaps=tset([b"\0\0\1"]), Tails=tset([b""]), MaxUnits=1, MaxAus=4 if q else 5), None, "Emit"),
            ("H.264: long sessions", dict(Kind="h264", Alphabet=tset(allu + [p, p]), Gaps=codes, Tails=tset([b"", b"\0\0"]), MaxUnits=5, MaxAus=8), 150 if q else 4000, "Emit"),
            ("AAC: buffers of up to three frames", dict(Kind="aac", Alphabet=tset(al), Gaps=tset([b""]), Tails=tset([b"", b"\xff"]), MaxUnits=3, MaxAus=1), None, "EmitAll"),
            ("AAC: sessions", dict(Kind="aac", Alphabet=tset([f1, f2, f3, cut]), Gaps=tset([b""]), Tails=tset([b""]), MaxUnits=2, MaxAus=2 if q else 3), None, "Emit"),
            ("AAC: long sessions", dict(Kind="aac", Alphabet=tset(al), Gaps=tset([b""]), Tails=tset([b""]), MaxUnits=4, MaxAus=6), 100 if q else 3000, "Emit")]
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build.build, "drv_codec", "san")
        fs = []
        for n, c, sim, emit in jobs:
            cfg = tlc.cfg_text(c, spec="Spec", invariants=("Recovered", "Current", "Laws"), action_constraint=emit, view=None if sim else "View")
            fs.append((n, sim, ex.submit(tlc.run, "CodecGen", cfg, simulate=sim, depth=60 if sim else None, seed=ctx.seed if sim else None)))
        fac = UnitFactory(Session, fb.result(), ctx.seed)
        for n, sim, f in fs:
            cases = ctx.model(n, f.result()).behaviours
            cases = list({json.dumps(c["h"]): c for c in cases}.values())
            lim = 6000 if q else 100000
            if len(cases) > lim:
                cases = sorted(cases, key=lambda x: rnd(ctx.seed, str(x)))[:lim]
            if not ctx.replay(n, cases, fac):
                return
    exe = fac.exe
    r = random.Random(rnd(ctx.seed, "m04", ctx.tier))
    k = 1 if q else 12
    sets = [("H.264 sessions", [h264(r, False) for _ in range(900 * k)]), ("damaged H.264 sessions", [h264(r, True) for _ in range(900 * k)]),
            ("AAC sessions", [aac(r, False) for _ in range(500 * k)]), ("damaged AAC sessions", [aac(r, True) for _ in range(900 * k)])]
    for n, xs in sets:
        if not judged.recorded(ctx, exe, xs, n, "CodecTrace", ask, record, corrupt):
            return


def replay(ctx, rec):
    exe = build.build("drv_codec", "san")
    if "judged" in rec:
        return judged.replay_one(ctx, exe, "CodecTrace", ask, record, rec["input"])
    return replay_unit(ctx, rec, Session, exe)
