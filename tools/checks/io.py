"""B01 B02: behaviours of Bits, Bytes and Buffers performed on the real classes."""
import concurrent.futures as cf
import random

import build
import tlc
from common import rnd
from drv import Driver, DriverDied


class Unit:
    """runner base: a case becomes commands with expected answers"""
    driver = None

    def __init__(self, exe, seed):
        self.d = Driver(exe)
        self.seed = seed
        self.steps = 0

    def run(self, case):
        r = random.Random(rnd(self.seed, str(case)))
        plan = self.plan(case, r)
        try:
            out = self.d.ask([c for c, _ in plan])
        except DriverDied as e:
            return str(e)
        self.steps += len(plan)
        for (c, want), got in zip(plan, out):
            if want is not None and (not want(got) if callable(want) else want != got):
                return "%s: expected %s, observed %s   (commands: %s)" % (
                    c, getattr(want, "says", want), got, "; ".join(x for x, _ in plan)[:600])
        if len(out) != len(plan):
            return "driver gave %d answers to %d commands" % (len(out), len(plan))
        return None

    def close(self):
        self.d.close()


class UnitFactory:
    def __init__(self, cls, exe, seed):
        self.cls, self.exe, self.seed = cls, exe, seed

    def __call__(self):
        return self.cls(self.exe, self.seed)


def bits_of(b):
    return [(b[i // 8] >> (7 - i % 8)) & 1 for i in range(len(b) * 8)]


def value(bs):
    v = 0
    for b in bs:
        v = v << 1 | b
    return v


class BitsRunner(Unit):
    def plan(self, case, r):
        nbytes = case["bytes"]
        init = bytes(r.choice((0, 255, r.randrange(256), r.randrange(256))) for _ in range(nbytes))
        ib = bits_of(init)
        writes = {}
        plan = [("B " + (init.hex() or "-"), "ok")]
        written = list(ib)      # what must be in the buffer; None: not specified
        pos = 0
        src = lambda k, j: ib[j] if k == 0 else writes[k][j]
        for st in case["h"]:
            a, w = st["a"], st["w"]
            if a in ("Write", "WriteBytes"):
                n = w if a == "Write" else 8 * w
                bs = [r.randrange(2) for _ in range(n)]
                if r.random() < .3:
                    bs = [1] * n
                writes[st["k"]] = bs
                if a == "WriteBytes":
                    plan.append(("W " + (bytes(value(bs[i:i + 8]) for i in range(0, n, 8)).hex() or "-"), "ok"))
                else:
                    v = value(bs) | (r.getrandbits(64) << n if r.random() < .5 else 0)
                    v &= (1 << 64) - 1
                    if w in (8, 16, 24, 32) and r.random() < .5:
                        plan.append(("w%d %x" % (w, v & 0xffffffff), "ok"))
                    else:
                        plan.append(("w %x %d" % (v, w), "ok"))
                written[pos:pos + n] = bs
                pos += n
                if n and pos % 8:
                    e = pos + (8 - pos % 8)
                    written[pos:e] = [None] * (e - pos)
                plan.append(("d", Contents(list(written))))
            elif a == "SkipWrite":
                plan.append(("S %d" % w, "ok"))
                pos += 8 * w
            elif a == "Turn":
                plan.append(("i", "ok"))
                pos = 0
            elif a == "Read":
                v = value([src(*x) for x in st["v"]])
                c = "r%d" % w if w in (8, 16, 24, 32) and r.random() < .5 else "r %d" % w
                plan.append(("ab %d" % w, "ok"))
                plan.append((c, "%x" % v))
            elif a == "ReadBytes":
                bs = [src(*x) for x in st["v"]]
                plan.append(("R %d" % w, bytes(value(bs[i:i + 8]) for i in range(0, len(bs), 8)).hex() or "-"))
            elif a == "SkipRead":
                plan.append(("s %d" % w, "ok"))
            left = st["left"]
            p = nbytes * 8 - left
            plan.append(("q", "%x %x %x" % (left, left // 8, p // 8)))
            plan.append(("ab %d" % (left + 1), "err"))
            plan.append(("ab %d" % left, "ok"))
            plan.append(("a %d" % (left // 8), "ok"))
            plan.append(("a %d" % (left // 8 + 1), "err"))
        return plan


class Contents:
    def __init__(self, bs):
        self.bs = bs
        self.says = "bits " + "".join("?" if b is None else str(b) for b in bs)

    def __call__(self, got):
        g = bits_of(bytes.fromhex(got)) if got != "-" else []
        return len(g) == len(self.bs) and all(b is None or b == x for b, x in zip(self.bs, g))


class BytesRunner(Unit):
    def plan(self, case, r):
        total = case["total"]
        data = bytes((i * 37 + 11 + r.randrange(3)) & 255 for i in range(total))
        c = case["cfg"]
        if case.get("mem"):
            plan = [("Yc " + data.hex(), "ok")]
        else:
            plan = [("Y %d %d %s %s" % (c["cap"], 1 if c["rew"] else 0, ",".join(map(str, c["seg"])), data.hex()), "ok")]
        for st in case["h"]:
            a, n = st["a"], st["n"]
            d = data[st["from"]:st["from"] + n] if "from" in st else b""
            h = d.hex() or "-"
            if a == "Acquire":
                plan.append(("ya %d" % n, "ok" if st["ok"] else "err"))
                if st["ok"]:
                    plan.append(("yz", AtLeast(n)))
            elif a == "Bytes":
                plan.append(("yb %d" % n, h))
            elif a == "Reverse":
                plan.append(("yv %d" % n, d[::-1].hex() or "-"))
            elif a == "Skip":
                plan.append(("ys %d" % n, "ok"))
            elif a == "Peek":
                plan.append(("yp %d" % n, h))
            elif a == "Int":
                plan.append(("y%d" % n, "%x" % int.from_bytes(d, "big")))
        return plan


class AtLeast:
    def __init__(self, n):
        self.n = n
        self.says = "at least %x" % n

    def __call__(self, got):
        return int(got, 16) >= self.n


class BufRunner(Unit):
    def plan(self, case, r):
        what, cap = case["what"], case["cap"]
        if what == "w":
            mem = bytearray(r.randrange(256) for _ in range(cap))
            plan = [("V " + (bytes(mem).hex() or "-"), "ok")]
            for st in case["h"]:
                n = st["n"]
                if st["a"] == "Acquire":
                    plan.append(("va %d" % n, "ok" if st["ok"] else "err"))
                    continue
                d = bytes(r.randrange(256) for _ in range(n))
                if st["a"] == "Skip":
                    plan.append(("vs %d" % n, "ok"))
                else:
                    mem[st["at"]:st["at"] + n] = d
                    if st["a"] == "Int":
                        v = int.from_bytes(d, "big")
                        if n in (1, 2, 4):
                            plan.append(("v%d %x" % (n, v), "ok"))
                        else:
                            plan.append(("v3 %x" % (v | (r.randrange(256) << 24 if r.random() < 0.0 else 0)), "ok"))
                    else:
                        plan.append(("vb " + (d.hex() or "-"), "ok"))
                plan.append(("d", bytes(mem).hex() or "-"))
            return plan
        if what == "c":
            head = case["head"]
            mem = bytearray()
            plan = [("C %d %d" % (cap, head), "ok"), ("ch", "ok")]
            for st in case["h"]:
                n = st["n"]
                d = bytes(r.randrange(256) for _ in range(n))
                if st["a"] == "Skip":
                    mem += b"Z" * n
                    plan.append(("cs %d" % n, "ok"))
                else:
                    mem += d
                    plan.append(("ca " + (d.hex() or "-"), "ok"))
                plan.append(("cz", "%x %x %x %x" % (len(mem), cap - len(mem), cap, head)))
                plan.append(("ch", "ok"))
                plan.append(("cd", bytes(mem).hex() or "-"))
            plan.append(("Cd %s %d" % (bytes(mem).hex() or "-", head), "ok"))
            plan.append(("ch", "ok"))
            plan.append(("cd", bytes(mem).hex() or "-"))
            plan.append(("cz", "%x %x %x %x" % (len(mem), 0, len(mem), head)))
            return plan
        if what == "s":
            data = bytes(r.randrange(256) for _ in range(cap))
            kind = r.choice(("tcp", "tls", "srt"))
            plan = [("K %s %s %s" % (kind, r.choice(("1", "2", "3,1", "20", "1,1,4")), data.hex()), "ok")]
            for st in case["h"]:
                h = data[st["from"]:st["from"] + st["n"]].hex()
                if st["a"] == "Some":
                    plan.append(("kr 1", h))
                else:
                    plan.append(("kf %d" % st["ask"], h if st["ok"] else "err" if kind == "tcp" else "err " + (h or "-")))
            return plan
        text = "".join("\n" if x == "n" else chr(97 + i) for i, x in enumerate(case["text"])).encode()
        plan = [("M " + (text.hex() or "-"), "ok")]
        for st in case["h"]:
            d = text[st["from"]:st["from"] + st["n"]]
            h = d.hex() or "-"
            if st["a"] == "Line":
                plan.append(("ml", "l%s %x" % (h, st["num"]) if st["ok"] else "err"))
            elif st["a"] == "Read":
                plan.append(("mr %d" % st["ask"], h if st["ok"] else "err"))
            else:
                plan.append(("mf %d" % st["n"], h if st["ok"] else "err"))
        return plan


def b01(ctx):
    q = ctx.quick
    inv = ("PosOK", "NoFuture")
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build.build, "drv_io", "san")
        jobs = []
        for mode in ("r", "w"):
            c = dict(Bytes=6 if q else 9, RWidths=set(range(1, 33)), WWidths=set(range(1, 41 if q else 65)), Mode0=mode, MaxHist=99)
            jobs.append(("every position and width (%s)" % mode, c, False))
            s = dict(Bytes=8, RWidths=set(range(1, 33)), WWidths=set(range(1, 17)), Mode0=mode, MaxHist=5)
            jobs.append(("random sequences (%s)" % mode, s, True))
        jobs.append(("all short sequences of writes, then reads", dict(Bytes=2, RWidths={1, 3, 5, 8, 11}, WWidths={1, 2, 3, 6, 7, 9},
                                                                       Mode0="w", MaxHist=4 if q else 6), None))
        fs = []
        for n, c, sim in jobs:
            if sim:
                fs.append((n, c, ex.submit(tlc.run, "Bits", tlc.cfg_text(c, spec="Spec", invariants=inv, action_constraint="EmitEnd"),
                                           simulate=400 if q else 6000, depth=7, seed=ctx.seed)))
            elif sim is None:
                fs.append((n, c, ex.submit(tlc.run, "Bits", tlc.cfg_text(c, spec="Spec", invariants=inv, action_constraint="EmitEnd"))))
            else:
                fs.append((n, c, ex.submit(tlc.run, "Bits", tlc.cfg_text(c, spec="Spec", view="View", invariants=inv, action_constraint="Emit"))))
        fac = UnitFactory(BitsRunner, fb.result(), ctx.seed)
        for n, c, f in fs:
            r = ctx.model(n, f.result())
            cases = [{"bytes": c["Bytes"], "h": h} for h in r.behaviours]
            lim = 12000 if q else 200000
            if len(cases) > lim:
                cases = sorted(cases, key=lambda x: rnd(ctx.seed, str(x)))[:lim]
            if not ctx.replay(n, cases, fac):
                return


def b02(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build.build, "drv_io", "san")
        segs = tlc.Raw("{<<1>>, <<3>>, <<20>>, <<2, 5>>, <<4, 1, 1>>}")
        fs = []
        for n, c in (("wrap-around of small buffers", dict(Total=9 if q else 13, Caps={1, 3, 4, 7}, Rewinds={True}, Segs=segs, Sizes={0, 1, 2, 3, 5} if q else {0, 1, 2, 3, 4, 5, 7, 8}, MaxHist=99)),
                     ("no rewinding", dict(Total=9, Caps={1, 4, 9, 12}, Rewinds={False}, Segs=segs, Sizes={0, 1, 2, 3, 5, 10}, MaxHist=99))):
            fs.append((n, c, BytesRunner, ex.submit(tlc.run, "Bytes", tlc.cfg_text(
                c, spec="Spec", view="View", invariants=("Conserved",), action_constraint="Emit"))))
        n, c = "long random use", dict(Total=60, Caps={5, 8, 16}, Rewinds={True}, Segs=segs, Sizes={0, 1, 2, 3, 4, 5, 7, 8}, MaxHist=30)
        fs.append((n, c, BytesRunner, ex.submit(tlc.run, "Bytes", tlc.cfg_text(
            c, spec="Spec", invariants=("Conserved",), action_constraint="EmitEnd"), simulate=300 if q else 6000, depth=31, seed=ctx.seed)))
        texts = "{" + ", ".join("<<%s>>" % ", ".join('"%s"' % ("n" if b == "1" else "a") for b in w)
                                for L in range(0, 6) for w in ([format(i, "0%db" % L) for i in range(2 ** L)] if L else [""])) + "}"
        for n, c in (("writer", dict(What="w", Cap=6, Heads={0}, Sizes={0, 1, 2, 5, 6, 7}, Texts=tlc.Raw("{<<>>}"), MaxHist=3)),
                     ("packet buffer", dict(What="c", Cap=6, Heads={0, 1, 4}, Sizes={0, 1, 2, 5}, Texts=tlc.Raw("{<<>>}"), MaxHist=4)),
                     ("exact reads from connections", dict(What="s", Cap=7, Heads={0}, Sizes={1, 2, 3, 5, 8}, Texts=tlc.Raw("{<<>>}"), MaxHist=4 if q else 6)),
                     ("memory reader", dict(What="m", Cap=0, Heads={0}, Sizes={1, 2, 4}, Texts=tlc.Raw(texts), MaxHist=4 if q else 5))):
            fs.append((n, c, BufRunner, ex.submit(tlc.run, "Buffers", tlc.cfg_text(
                c, spec="Spec", invariants=("InBounds",), action_constraint="Emit"))))
        exe = fb.result()
        for n, c, cls, f in fs:
            r = ctx.model(n, f.result())
            cases = []
            for b in (tlc.thin2(r.behaviours) if n == "long random use" else r.behaviours):
                b = dict(b)
                if cls is BytesRunner:
                    b["total"] = c["Total"]
                    if n == "no rewinding" and b["cfg"]["cap"] == c["Total"]:
                        cases.append(dict(b, mem=True))
                else:
                    b["what"], b["cap"] = c["What"], c["Cap"]
                cases.append(b)
            lim = 40000 if q else 200000
            if len(cases) > lim:
                cases = sorted(cases, key=lambda x: rnd(ctx.seed, str(x)))[:lim]
            if not ctx.replay(n, cases, UnitFactory(cls, exe, ctx.seed)):
                return


def replay(ctx, rec):
    cls = {"B01": BitsRunner}.get(ctx.prop)
    if cls is None:
        c = rec["cases"][-1]
        cls = BytesRunner if "total" in c else BufRunner
    return replay_unit(ctx, rec, cls, build.build("drv_io", "san"))


def replay_unit(ctx, rec, cls, exe):
    r = cls(exe, rec["seed"])
    try:
        for c in rec["cases"]:
            m = r.run(c)
            if m:
                print(m)
                print("VIOLATION property=%s replay=given" % ctx.prop)
                return 1
    finally:
        r.close()
    print("the behaviour is as specified")
    return 0
