"""B03: behaviours of File.tla performed on the file protocol."""
import concurrent.futures as cf
import os
import shutil
import tempfile

import build
import tlc
from common import rnd
from checks.io import Unit, UnitFactory, replay_unit


class FileRunner(Unit):
    def __init__(self, exe, seed):
        super().__init__(exe, seed)
        self.dir = tempfile.mkdtemp(prefix="vfile.")

    def close(self):
        super().close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def plan(self, case, r):
        name = os.path.join(self.dir, r.choice(("f", "f.flv", "-", "a:b", "x" * 200)))
        # a run of bytes is as long as one of its own or as the buffers of the library; where bytes
        # of one kind are written over the other kind, one byte
        modes, m = [], ""
        for st in case["h"]:
            m = st["m"] if st["a"] == "Open" else m
            modes.append(m)
        plainly = any(st["a"] == "Write" and m == "plain" for st, m in zip(case["h"], modes))
        run = 1 if plainly else r.choice((1, 1, 2, 100, 4096, 8191, 8192, 20000))
        memo = {}

        def byte(x):
            k, i, c = x
            if c == "n":
                return b"\n"
            if (k, i) not in memo:
                memo[k, i] = bytes(b if b != 10 else 0 for b in (r.choice((0, 13, 26, 255, r.randrange(256))) if run < 9 else (j * (2 * k + 3) + i) & 255 for j in range(run)))
            return memo[k, i]

        data = lambda v: b"".join(byte(x) for x in v)
        plan, at = [], False
        for st in case["h"]:
            a = st["a"]
            v = data(st["v"]) if "v" in st else b""
            h = v.hex() or "-"
            if a == "File":
                plan.append(("file %s %s" % (name, h if st["ok"] else "none"), "ok"))
            elif a == "Open":
                plan.append(("open %s %s%s" % (name, st["m"], " again" if st["again"] else ""), "ok" if st["ok"] else "err"))
            elif a == "Close":
                plan.append((st["m"], "ok"))
                plan.append(("cat " + name, h))
            elif a == "Write":
                plan.append(("write " + h, "ok"))
            elif a == "Read":
                n = len(v) + (r.choice((1, run, 2 * run)) if st["more"] else 0)
                if v:
                    plan.append(("read %d" % n, h))
                else:
                    plan.append(("read %d" % n, lambda g: g in ("-", "end")))
                    plan[-1][1].says = "the end"
                    plan.append(("read %d" % n, "end"))
            elif a == "Fully":
                n = len(v) + (0 if st["ok"] else r.choice((1, run)))
                plan.append(("fully %d" % n, h if st["ok"] else "end"))
            elif a == "Line":
                plan.append(("line", "%s %d" % (h, st["num"]) if st["ok"] else "end"))
        if modes[-1] and case["h"][-1]["a"] != "Close":
            plan.append(("drop", "ok"))
        return plan


def b03(ctx):
    q = ctx.quick
    texts = tlc.Raw('{<<"a">>, <<"n">>, <<"a", "a">>, <<"a", "n">>, <<"n", "a">>, <<"a", "n", "a">>}')
    few = tlc.Raw('{<<"a">>, <<"a", "n">>}')
    inv = ("InFile", "Missing")
    with cf.ThreadPoolExecutor(3) as ex:
        exe = ex.submit(build.build, "drv_file", "san")
        c = lambda t, s, n: dict(Texts=t, Sizes=s, MaxHist=n)
        fs = [("every step", ex.submit(tlc.run, "File", tlc.cfg_text(c(few, {1, 2, 4}, 5 if q else 6), spec="Spec", view="View", invariants=inv, action_constraint="Emit"))),
              ("every text", ex.submit(tlc.run, "File", tlc.cfg_text(c(texts, {1, 2, 3}, 4 if q else 5), spec="Spec", view="View", invariants=inv, action_constraint="Emit"))),
              ("long use", ex.submit(tlc.run, "File", tlc.cfg_text(c(texts, {1, 2, 3, 5}, 25), spec="Spec", invariants=inv, action_constraint="EmitEnd"),
                                     simulate=300 if q else 6000, depth=27, seed=ctx.seed))]
        for n, f in fs:
            r = ctx.model(n, f.result())
            behs = tlc.thin2(r.behaviours) if n == "long use" else r.behaviours
            cases = sorted(({"h": b["h"]} for b in behs), key=lambda x: rnd(ctx.seed, str(x)))[:30000 if q else 200000]
            if not ctx.replay(n, cases, UnitFactory(FileRunner, exe.result(), ctx.seed)):
                return


def replay(ctx, rec):
    return replay_unit(ctx, rec, FileRunner, build.build("drv_file", "san"))
