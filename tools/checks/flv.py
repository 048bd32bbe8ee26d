"""M01 M02: FlvFmt.tla against the real FLV muxer and demuxer."""
import concurrent.futures as cf
import json
import os
import random
import tempfile

import build
import tlc
from checks.io import Unit, UnitFactory, replay_unit
from common import rnd, Inconclusive
from drv import Driver, DriverDied

TYPE = {"video": 0, "audio": 1, "script": 2}
NAME = {v: k for k, v in TYPE.items()}
HEADER = bytes([70, 76, 86, 1, 5, 0, 0, 0, 9])
SEGS = ["1", "9", "15", "1000000000", "13,1,1", "4,11", "7,3,50", "1024", "65536,1"]


def sext(c):
    v = int.from_bytes(bytes(c), "big")
    return v - (1 << 24) if v & 0x800000 else v


def show(p, data):
    dts = int.from_bytes(bytes(p["dts"]), "big")
    codec = {"audio": p["flags"] >> 4, "video": p["flags"] & 15, "script": 0}[p["kind"]]
    return "%d,%d,%d,%d,%d,%d,%s" % (TYPE[p["kind"]], dts, dts + sext(p["cts"]), p["flags"], p["ptype"], codec, data.hex() or "-")


class RoundTrip(Unit):
    def plan(self, case, r):
        datas = []
        for p in case["ps"]:
            n = p["n"]
            datas.append(bytes(r.randrange(256) for _ in range(n)) if n < 4096 else r.randbytes(n))
        wire = HEADER + b"".join(bytes(h) + d for h, d in zip(case["heads"], datas))
        pk = [show(p, d) for p, d in zip(case["ps"], datas)]
        seg = r.choice(SEGS)
        if len(wire) > 100000:
            seg = r.choice(["1024", "65536,1", "1000000000", "1448", "999999,3"])
        w = Short(wire.hex())
        return [("FM " + " ".join(pk), w),
                ("FD %s %s" % (seg, wire.hex()), Short("P " + " ".join(pk))),
                ("FR %s %s" % (r.choice(SEGS if len(wire) < 100000 else [seg]), wire.hex()), w)]


class Short:
    def __init__(self, s):
        self.s = s
        self.says = s if len(s) < 400 else s[:400] + "...(%d)" % len(s)

    def __call__(self, got):
        return got == self.s


def m01(ctx):
    q = ctx.quick
    st = tlc.Raw("{<<0,0,0,0>>, <<0,0,0,40>>, <<0,255,255,255>>, <<1,0,0,0>>, <<127,255,255,255>>, <<255,255,255,254>>}")
    st2 = tlc.Raw("{<<0,0,1,40>>, <<200,1,2,3>>}")
    ct = tlc.Raw("{<<0,0,0>>, <<0,0,80>>, <<255,255,216>>, <<127,255,255>>, <<128,0,0>>}")
    base = dict(Kinds={"audio", "video", "script"}, Sizes={1, 2, 5}, Stamps=st, Ctss=ct, AFlags={0xaf, 0xa2}, VFlags={0x17, 0x27, 0x1c, 0x57, 0x37},
                PTypes={0, 1, 2}, MaxLen=1, Small=True, Last=0)
    jobs = [("all single packets", dict(base, Sizes={1, 2, 3, 11, 255, 256}), None, "EmitEvery"),
            ("pairs and triples", dict(base, Stamps=st2, Ctss=tlc.Raw("{<<0,0,0>>, <<255,255,216>>}"), AFlags={0xaf}, VFlags={0x17, 0x57}, PTypes={1},
                                       Sizes={1, 4} if q else {1, 4, 9}, MaxLen=3), None, "Emit"),
            ("long files", dict(base, Small=False, Sizes={1, 3, 100, 255, 256, 1009, 4096, 65535, 65536}, MaxLen=12), 60 if q else 1500, "Emit"),
            ("files that wrap the buffer", dict(base, Small=False, Kinds={"video", "audio"}, Stamps=st2, Sizes={300000, 520000, 700001, 1048571, 7, 1},
                                                VFlags={0x17}, AFlags={0xaf}, PTypes={1}, MaxLen=7), 12 if q else 150, "Emit")]
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build.build, "drv_flv", "san")
        fs = []
        for n, c, sim, emit in jobs:
            cfg = tlc.cfg_text(c, spec="Spec", invariants=("RoundTrip", "HeadsOK", "PrefixOK"), action_constraint=emit)
            fs.append((n, ex.submit(tlc.run, "FlvGen", cfg, simulate=sim, depth=(c["MaxLen"] + 1) if sim else None, seed=ctx.seed if sim else None)))
        fac = UnitFactory(RoundTrip, fb.result(), ctx.seed)
        for n, f in fs:
            r = ctx.model(n, f.result())
            cases = r.behaviours
            if "long" in n or "wrap" in n:
                seen, out = set(), []
                for b in cases:
                    k = str(b["ps"][:-1])
                    if k not in seen:
                        seen.add(k)
                        out.append(b)
                cases = out
            lim = 12000 if q else 200000
            if len(cases) > lim:
                cases = sorted(cases, key=lambda x: rnd(ctx.seed, str(x)))[:lim]
            if not ctx.replay(n, cases, fac):
                return
        fuzz(ctx, fac.exe, 400 if q else 6000, "well-formed files with odd headers, judged by FlvTrace", wellformed)


def wellformed(r):
    return build_file(r, r.randrange(0, 5), damage=False)


def build_file(r, n, damage):
    hdr = bytearray(HEADER)
    if r.random() < .4:
        hdr[3:9] = bytes(r.randrange(256) for _ in range(6))
    out = bytearray(hdr)
    prev = 0
    for _ in range(n):
        t = r.choice((8, 9, 9, 18))
        body = b""
        if t == 8:
            body = bytes([0xa0 | r.randrange(16), r.choice((0, 1, 1, 255))])
        elif t == 9:
            ft = r.randrange(16)
            body = bytes([ft << 4 | r.choice((7, 12))])
            if ft != 5:
                body += bytes([r.choice((0, 1, 2, 200))]) + r.choice((b"\0\0\0", b"\xff\xff\xf0", bytes(r.randrange(256) for _ in range(3))))
        body += bytes(r.randrange(256) for _ in range(r.choice((1, 1, 2, 3, 7, 20))))
        if damage and r.random() < .5:
            k = r.randrange(7)
            if k == 0:
                t = r.randrange(256)
            elif k == 1 and body:
                body = bytes([r.randrange(256)]) + body[1:]
            elif k == 2:
                body = body[:r.randrange(0, 7)]
        size = len(body)
        if damage and r.random() < .25:
            size = r.choice((0, 1, 2, 4, 5, size + 1, max(0, size - 1), size + 15, 0xffffff, 1048576, 1048577, 0x7fffff))
        pv = prev if r.random() < .8 else r.getrandbits(32)
        ts = r.getrandbits(32) if r.random() < .5 else r.randrange(5000)
        out += pv.to_bytes(4, "big") + bytes([t]) + size.to_bytes(3, "big") + (ts & 0xffffff).to_bytes(3, "big") + bytes([ts >> 24])
        out += (b"\0\0\0" if r.random() < .9 else bytes(r.randrange(256) for _ in range(3))) + body
        prev = 11 + len(body)
    return bytes(out)


def damaged(r):
    b = bytearray(build_file(r, r.randrange(0, 5), damage=True))
    k = r.random()
    if k < .25 and b:
        b = b[:r.randrange(len(b) + 1)]
    elif k < .45 and b:
        for _ in range(r.randrange(1, 4)):
            b[r.randrange(len(b))] = r.choice((0, 255, 8, 9, 18, r.randrange(256)))
    elif k < .55 and len(b) > 10:
        i = r.randrange(len(b))
        del b[i:i + r.randrange(1, 6)]
    elif k < .6:
        b = bytearray(r.randrange(256) for _ in range(r.randrange(0, 60)))
    return bytes(b)


def to_record(data, ans):
    """what the driver said, in the specification's terms; None: not expressible (a mismatch)"""
    out = []
    if ans.startswith("P"):
        for t in ans[2:].split():
            ty, dts, pts, flags, pt, codec, h = t.split(",")
            ty, dts, pts, flags, pt, codec = map(int, (ty, dts, pts, flags, pt, codec))
            if ty not in NAME or not 0 <= dts < 1 << 32 or not -(1 << 23) <= pts - dts < 1 << 23 or not 0 <= flags < 256 or not 0 <= pt < 256:
                return None
            kind = NAME[ty]
            if codec != {"audio": flags >> 4, "video": flags & 15, "script": 0}[kind]:
                return None
            out.append({"kind": kind, "dts": list(dts.to_bytes(4, "big")), "cts": list(((pts - dts) & 0xffffff).to_bytes(3, "big")),
                        "flags": flags, "ptype": pt, "data": list(bytes.fromhex(h)) if h != "-" else []})
    elif ans != "H":
        return None
    return {"in": list(data), "out": out}


def judge(module, recs, timeout=300):
    """indices (0-based) of the records the specification rejects, and the TLC result"""
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
        path = f.name
    try:
        res = tlc.run(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Conforms\n", env={"TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    if res.distinct < len(recs):
        raise Inconclusive("%s looked at %d of %d records" % (module, res.distinct, len(recs)))
    return sorted(int(l) - 1 for l in res.lines), res


def fuzz(ctx, exe, n, name, gen, module="FlvTrace", ask=None, record=to_record, bind=True, key=None):
    """offers n generated inputs to the real code, records what it did and lets the
    trace specification judge every record"""
    r = random.Random(rnd(ctx.seed, name, ctx.tier))
    inputs, seen = [], set()
    while len(inputs) < n:
        b = gen(r)
        if key:
            k = key(b)
            if k in seen:
                continue
            seen.add(k)
        inputs.append(b)
    ask = ask or (lambda d, b, rr: d.ask(["FD %s %s" % (rr.choice(SEGS), b.hex() or "-")])[0])

    def one(d, b):
        rr = random.Random(rnd(ctx.seed, repr(b)))
        try:
            return ask(d, b, rr), None
        except DriverDied as e:
            return None, str(e)

    d = Driver(exe)
    recs, bad = [], None
    for b in inputs:
        a, err = one(d, b)
        if err:
            bad = (b, err)
            break
        rec = record(b, a)
        if rec is None:
            bad = (b, "observed %s, which the specification cannot express" % a[:500])
            break
        recs.append(rec)
    d.close()
    shards = [recs[i::4] for i in range(4)] if len(recs) > 400 else [recs]
    rejected, gen_states = [], 0
    if recs:
        with cf.ThreadPoolExecutor(4) as ex:
            for i, (rej, res) in enumerate(ex.map(lambda s: judge(module, s), [s for s in shards if s])):
                gen_states += res.distinct
                rejected += [shards[i][j] for j in rej]
    if bind and recs and not rejected and not bad:
        corrupted = [x for x in (corrupt(rec, r) for rec in recs) if x][:40]
        if corrupted:
            rej, _ = judge(module, corrupted)
            if len(rej) != len(corrupted):
                raise Inconclusive("%s accepted a corrupted record" % module)
    ctx.traces += len(recs)
    ctx.steps += len(recs)
    ctx.states += gen_states
    ctx.transitions += gen_states
    ctx.stages.append({"stage": "recorded runs " + name, "cases": len(recs), "rejected": len(rejected)})
    if len(ctx.samples) < 6 and recs:
        ctx.samples.append({"stage": name, "case": json.dumps(recs[len(recs) // 2])[:800]})
    if rejected and not bad:
        rec = min(rejected, key=lambda x: len(json.dumps(x)))
        bad = (rec, "the specification rejects this run: %s" % json.dumps(rec)[:1500])
    if bad:
        ctx.violation(name, bad[1], {"stage": name, "message": bad[1], "input": bad[0].hex() if isinstance(bad[0], bytes) else bad[0]})
        return False
    return True


def corrupt(rec, r):
    """a record that the specification must refuse"""
    if not rec["out"]:
        return None
    rec = json.loads(json.dumps(rec))
    p = r.choice(rec["out"])
    k = r.randrange(4)
    if k == 0:
        p["dts"][3] ^= 1
    elif k == 1:
        p["data"][-1] ^= 0x40
    elif k == 2:
        rec["out"].append(dict(p))
    else:
        rec["out"].pop()
    return rec


def m02(ctx):
    q = ctx.quick
    st2 = tlc.Raw("{<<0,0,1,40>>}")
    c = dict(Kinds={"audio", "video", "script"}, Sizes={1, 3}, Stamps=st2, Ctss=tlc.Raw("{<<0,0,9>>}"), AFlags={0xaf}, VFlags={0x17, 0x57}, PTypes={1},
             MaxLen=2, Small=True, Last=0)
    with cf.ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build.build, "drv_flv", "san")
        f = ex.submit(tlc.run, "FlvGen", tlc.cfg_text(c, spec="Spec", invariants=("RoundTrip", "HeadsOK", "PrefixOK")))
        exe = fb.result()
        ctx.model("every truncation of every pair of packets, on the specification", f.result())
    if not fuzz(ctx, exe, 4000 if q else 60000, "damaged files, judged by FlvTrace", damaged):
        return
    # every truncation and every single-byte change of one file
    r = random.Random(rnd(ctx.seed, "base"))
    base = build_file(r, 4, damage=False)
    muts = [base[:i] for i in range(len(base) + 1)]
    for i in range(9, len(base)):
        for v in ((0, 255, base[i] ^ 1, 8, 9, 18) if q else range(0, 256, 5)):
            if v != base[i]:
                muts.append(base[:i] + bytes([v]) + base[i + 1:])
    it = iter(muts)
    if not fuzz(ctx, exe, len(muts), "every truncation and byte change of a file, judged by FlvTrace", lambda _r: next(it), bind=False):
        return
    edge(ctx, exe)


def edge(ctx, exe):
    """tags that end exactly where the demuxer's buffer ends"""
    d = Driver(exe)
    n = 0
    try:
        for pad in (0, 1, 2, 3, 4, 5, 14, 15, 16, 30):
            for tail in (b"\x08\0\0\0", b"\x08\0\0\1", b"\x09\0\0\0", b"\x09\0\0\1", b"\x09\0\0\4", b"\x12\0\0\0"):
                first = 1048576 - 9 - 15 - 15 - pad
                body = b"\xaf\x01" + bytes(first - 2)
                b = HEADER + b"\0\0\0\0" + b"\x08" + first.to_bytes(3, "big") + bytes(7) + body
                b += (first + 11).to_bytes(4, "big") + tail + bytes(7) + b"\xaf\x01\x27\x57\x17"[:pad]
                n += 1
                a = d.ask(["FD 1000000000 " + b.hex()])[0]
                if a.count(",") != 6:
                    ctx.violation("buffer end", "a file with a tag of %d bytes and an empty one gave %d fields" % (first, a.count(",")),
                                  {"stage": "buffer end", "message": "pad %d tail %r" % (pad, tail)})
                    return
    except DriverDied as e:
        ctx.violation("buffer end", str(e), {"stage": "buffer end", "message": str(e)})
        return
    finally:
        d.close()
    ctx.traces += n
    ctx.stages.append({"stage": "tags at the end of the demuxer's buffer", "cases": n})


def replay(ctx, rec):
    exe = build.build("drv_flv", "san")
    if "cases" in rec:
        return replay_unit(ctx, rec, RoundTrip, exe)
    d = Driver(exe)
    inp = rec.get("input")
    b = bytes.fromhex(inp) if isinstance(inp, str) else bytes(inp["in"])
    try:
        a = d.ask(["FD 1000000000 " + (b.hex() or "-")])[0]
    except DriverDied as e:
        print(e)
        return 1
    finally:
        d.close()
    r = to_record(b, a)
    rej = [0] if r is None else judge("FlvTrace", [r])[0]
    print(a[:2000], "rejected" if rej else "accepted")
    return 1 if rej else 0
