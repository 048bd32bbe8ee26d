"""S09: behaviours of Sync.tla and Co.tla performed on the coroutine primitives."""
import concurrent.futures as cf

import build
import tlc
from common import rnd
from checks.io import Unit, UnitFactory, replay_unit


class Events:
    """what happened in this step: begins in their order, an end and things gone anywhere"""

    def __init__(self, begun, ended, gone):
        self.begun, self.rest = ["begin " + h for h in begun], sorted(ended + ["gone " + h for h in gone])
        self.says = ",".join(self.begun + self.rest) or "ok"

    def __call__(self, got):
        g = [] if got == "ok" else got.split(",")
        b = [x for x in g if x.startswith("begin ")]
        i = [g.index(x) for x in self.rest if x in g]
        return b == self.begun and sorted(x for x in g if x not in b) == self.rest and i == sorted(i) \
            and (len(self.rest) < 2 or g.index(self.rest[0]) < g.index(self.rest[1]))


class SyncRunner(Unit):
    def plan(self, case, r):
        plan = [("clear", "ok")] if not case.get("co") else [("end", "ok")]
        out = lambda ws, how: "".join(" %d=%s" % (w, how) for w in sorted(ws))
        for st in case["h"]:
            a = st["a"]
            if case.get("co"):
                e = Events(st.get("v", []), ["end " + st["h"]] if a == "Finish" else [], st["gone"])
                plan.append(({"Make": "make", "Start": "start", "Drop": "giveup", "Yield": "yield", "Finish": "finish"}[a] + (" " + st["h"] if "h" in st else ""), e))
                continue
            n = st["n"] if "n" in st else 0
            if a == "New":
                if r.random() < .3:
                    plan.append(("gap %d" % r.randrange(1, 4), "ok"))
                plan.append(("new %d %d" % (n, r.choice((0, 100, 250, 250, 300, 1000))), "ok"))
            elif a == "Drop":
                plan.append(("drop %d" % n, "ok"))
            elif a in ("Sub", "Cancel"):
                plan.append(("%s %d %d" % (a.lower(), n, st["m"]), "ok"))
            elif a == "Put":
                plan.append(("put %d %d" % (n, st["v"]), "ok" + out(st["woken"], "woken")))
            elif a == "Dump":
                plan.append(("dump %d %d" % (n, st["rem"]), " ".join(str(x) for x in [len(st["v"]), 0 if st["rem"] else len(st["v"]), -1] + st["v"])))
            elif a == "Wait":
                plan.append(("wait %d %d %d" % (n, st["t"], st["w"]), "ok"))
            elif a == "Tick":
                plan.append(("tick %d" % st["d"], "ok" + out(st["late"], "late")))
        if not case.get("co"):      # what is in every stream in the end
            plan.append(("clear", "ok"))
        return plan


def s09(ctx):
    q = ctx.quick
    inv = ("OnlyThere", "InOrder")
    one, few = tlc.Raw("{20, 0}"), tlc.Raw("{20, 50, 0}")
    c = lambda n, t, k, w, m, full=False: dict(Nodes=tlc.Raw("1..%d" % n), Times=t, Ticks=k, MaxWait=w, MaxHist=m + n * full, Full=full)
    with cf.ThreadPoolExecutor(4) as ex:
        exe = ex.submit(build.build, "drv_sync", "san")
        run = lambda mod, cs, **k: ex.submit(tlc.run, mod, tlc.cfg_text(cs, spec="Spec", invariants=inv if mod == "Sync" else ("Lives",), action_constraint=k.pop("emit", "Emit"), **({"view": "View"} if "simulate" not in k else {})), **k)
        fs = [("subscriptions", run("Sync", c(3, {20}, {15}, 0, 8 if q else 10)), 15000),
              ("subscriptions of many", run("Sync", c(4, {20}, {15}, 0, 6 if q else 8, True)), 15000),
              ("waiting", run("Sync", c(2, one, {15}, 2, 8 if q else 9)), 8000),
              ("many streams", run("Sync", c(6, few, {15, 30}, 4, 60), emit="EmitEnd", simulate=500 if q else 10000, depth=61, seed=ctx.seed), 0),
              ("coroutines", run("Co", dict(Hs={"a", "bb", "c"}, MaxHist=9 if q else 12)), 15000),
              ("many coroutines", run("Co", dict(Hs={"a", "bb", "c", "dd", "e"}, MaxHist=60), emit="EmitEnd", simulate=300 if q else 6000, depth=61, seed=ctx.seed), 0)]
        for n, f, lim in fs:
            r = ctx.model(n, f.result())
            behs = tlc.thin2(r.behaviours) if not lim else r.behaviours
            cases = sorted(({"h": b["h"], "co": "coroutines" in n} for b in behs), key=lambda x: rnd(ctx.seed, str(x)))
            if lim:
                cases = cases[:lim if q else 200000]
            if not ctx.replay(n, cases, UnitFactory(SyncRunner, exe.result(), ctx.seed)):
                return


def replay(ctx, rec):
    return replay_unit(ctx, rec, SyncRunner, build.build("drv_sync", "san"))
