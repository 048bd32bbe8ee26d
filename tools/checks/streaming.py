"""S01 S02 S03 S05 S06: behaviours of Live.tla performed on the real server."""
import concurrent.futures as cf

import build
import live
import race
import tlc

BASE = dict(Streams={"s1"}, Edge=set(), Pubs={"p1"}, Players={"c1", "c2"}, Kinds={"key", "audio"},
            Ends={"fin"}, Leaves={"fin"}, Exts={"flv"}, MaxPkt=3, MaxTick=0, Ticks={49, 52}, MaxGen=1,
            Burst=False, Stalls=False, MaxHist=99)
INV = ("TypeOK", "OnePublisher", "Kept", "WaitersHaveAPull", "GenOK")


def cover(cfg, seed=1):
    """exhaustive: every transition of the state graph, once, with a path to it"""
    c = dict(BASE, **cfg)
    return tlc.run("LiveGen", tlc.cfg_text(c, view="GView", invariants=INV, properties=("StepExact",),
                                           action_constraint="Emit"), workers=1)


def simulate(cfg, num, depth, seed):
    c = dict(BASE, **cfg)
    c["MaxHist"] = depth
    return tlc.run("LiveGen", tlc.cfg_text(c, invariants=INV, action_constraint="EmitEnd",
                                             extra="CONSTANT KindSeqs <- OneKindSeq"), simulate=num,
                   depth=depth + 1, seed=seed, workers=1)


class Runner:
    def __init__(self, exe, seed, block=1):
        self.rig = live.Rig(exe)
        self.rep = live.Replay(self.rig, seed, block)

    @property
    def steps(self):
        return self.rep.steps

    def run(self, case):
        m = self.rep.run(case)
        return m

    def close(self):
        self.rig.close()


class Factory:
    def __init__(self, exe, seed, block=1):
        self.exe, self.seed, self.block = exe, seed, block

    def __call__(self):
        return Runner(self.exe, self.seed, self.block)


def run(ctx, covers, sims, cap, runs=(), races=()):
    """covers: exhaustive configurations; sims: random long behaviours; runs: as covers, with each
    non-key media packet of the specification standing for a run of `block` real ones"""
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build.build, "drv_spsd", "plain")
        fc = [(n, ex.submit(cover, c)) for n, c in covers]
        fs = [(n, ex.submit(simulate, c, num, depth, ctx.seed)) for n, c, num, depth in sims]
        fr = [(n, ex.submit(cover, c), num, block) for n, c, num, block in runs]
        exe = fb.result()
        fac = Factory(exe, ctx.seed)
        for n, f in fc:
            r = ctx.model(n, f.result())
            behs = tlc.prune_prefixes(r.behaviours)
            if len(behs) > cap:
                behs = sorted(behs, key=lambda b: live.rnd(ctx.seed, str(b)))[:cap]
            if not ctx.replay(n, behs, fac):
                return
        for n, f in fs:
            r = ctx.model(n + " (simulation)", f.result())
            if not ctx.replay(n, tlc.thin(r.behaviours), fac):
                return
        for n, f, num, block in fr:
            r = ctx.model(n, f.result())
            behs = sorted(tlc.prune_prefixes(r.behaviours), key=lambda b: live.rnd(ctx.seed, str(b)))[:num]
            if not ctx.replay(n, behs, Factory(exe, ctx.seed, block), extra={"block": block}):
                return
        for n, cfg, num in races:
            if not race.stage(ctx, n, exe, cfg, num):
                return


ALLK = {"script", "ah", "vh", "key", "inter", "audio"}


def raced(src=1, edge=0, pubs=1, players=3, kinds=("vh", "key", "audio"), width=4, len=14, ticks=False):
    return dict(src=["s%d" % (i + 1) for i in range(src)], edge=["e%d" % (i + 1) for i in range(edge)],
                pubs=["p%d" % (i + 1) for i in range(pubs)], players=["c%d" % (i + 1) for i in range(players)],
                kinds=list(kinds), width=width, len=len, ticks=ticks)


def s01(ctx):
    q = ctx.quick
    covers = [("fan-out", dict(Kinds={"script", "key", "inter", "audio"}, MaxPkt=3 if q else 4, Leaves={"fin", "rst"})),
              ("two streams", dict(Streams={"s1", "s2"}, Pubs={"p1", "p2"}, Players={"c1", "c2"}, Kinds={"key"}, MaxPkt=3, MaxGen=2)),
              ("bursts", dict(Kinds={"vh", "key", "inter"}, Burst=True, MaxPkt=4, Players={"c1", "c2"}))]
    sims = [("long runs", dict(Streams={"s1", "s2"}, Pubs={"p1", "p2"}, Players={"c1", "c2", "c3", "c4"}, Kinds=ALLK, Burst=True,
                               Leaves={"fin", "rst"}, Ends={"fin", "rst"}, MaxPkt=99, MaxGen=6, MaxTick=2), 600 if q else 20000, 30),
            ("long runs, slow readers", dict(Players={"c1", "c2", "c3"}, Kinds=ALLK, Stalls=True, Leaves={"fin", "rst"},
                                             MaxPkt=99, MaxGen=2), 60 if q else 1500, 25)]
    big = [("long unread backlogs", dict(Players={"c1", "c2"}, Kinds={"audio"}, Stalls=True, Leaves={"fin"},
                                         MaxPkt=2, MaxGen=1, Ends=set()), 60 if q else 1000, 1600)]
    races = [("everybody at once", raced(src=2, pubs=2, players=4, kinds=sorted(ALLK), width=5), 240 if q else 8000)]
    run(ctx, covers, sims, 6000 if q else 200000, big, races)


def s02(ctx):
    q = ctx.quick
    covers = [("every join point", dict(Kinds=ALLK, Players={"c1"}, MaxPkt=4 if q else 5)),
              ("two joiners", dict(Kinds={"ah", "vh", "key", "audio"}, Players={"c1", "c2"}, MaxPkt=3 if q else 4)),
              ("after a republish", dict(Kinds={"script", "key", "inter"}, Players={"c1"}, MaxPkt=3 if q else 4, MaxGen=2))]
    sims = [("long runs", dict(Players={"c1", "c2", "c3"}, Kinds=ALLK, Burst=True, Leaves={"fin", "rst"}, MaxPkt=99,
                               MaxGen=3, Ends={"fin", "rst"}), 600 if q else 20000, 30)]
    big = [("long groups of pictures", dict(Players={"c1"}, Kinds={"key", "audio", "inter", "vh"}, Leaves={"fin"},
                                            MaxPkt=4, MaxGen=1), 200 if q else 4000, 5000)]
    races = [("joining while packets arrive", raced(pubs=1, players=3, kinds=sorted(ALLK), width=4), 240 if q else 8000)]
    run(ctx, covers, sims, 8000 if q else 200000, big, races)


def s03(ctx):
    q = ctx.quick
    covers = [("one name", dict(Pubs={"p1", "p2", "p3"}, Players={"c1"}, Kinds={"key"}, Ends={"fin", "rst", "bad", "half"},
                                MaxPkt=2, MaxGen=4, Exts={"flv", "ts"})),
              ("two names", dict(Streams={"s1", "s2"}, Pubs={"p1", "p2"}, Players={"c1"}, Kinds={"vh", "key"},
                                 Ends={"fin", "rst"}, MaxPkt=2, MaxGen=3))]
    sims = [("long runs", dict(Streams={"s1", "s2", "s3"}, Pubs={"p1", "p2", "p3", "p4"}, Players={"c1", "c2"}, Kinds={"vh", "key", "audio"},
                               Ends={"fin", "rst", "bad", "half"}, Exts={"flv", "ts"}, Leaves={"fin"}, MaxPkt=99, MaxGen=20, MaxTick=2),
             600 if q else 20000, 30)]
    races = [("publishers at once", raced(src=2, pubs=4, players=2, kinds=("vh", "key"), width=5), 240 if q else 8000)]
    run(ctx, covers, sims, 6000 if q else 200000, (), races)


def s05(ctx):
    q = ctx.quick
    covers = [("one stream", dict(Streams={"e1"}, Edge={"e1"}, Pubs=set(), Players={"c1", "c2", "c3"} if not q else {"c1", "c2"},
                                  Kinds={"key"}, MaxPkt=2, MaxTick=3, MaxGen=3)),
              ("two streams", dict(Streams={"e1", "e2"}, Edge={"e1", "e2"}, Pubs=set(), Players={"c1", "c2"},
                                   Kinds={"key"}, MaxPkt=1, MaxTick=0, MaxGen=3))]
    sims = [("long runs", dict(Streams={"e1", "e2", "s1"}, Edge={"e1", "e2"}, Pubs={"p1"}, Players={"c1", "c2", "c3", "c4"},
                               Kinds=ALLK, Leaves={"fin", "rst"}, Burst=True, MaxPkt=99, MaxGen=12, MaxTick=5), 600 if q else 20000, 30)]
    races = [("arrivals and answers at once", raced(src=0, edge=2, pubs=0, players=4, kinds=("vh", "key"), width=4, ticks=True), 240 if q else 8000)]
    run(ctx, covers, sims, 6000 if q else 200000, (), races)


def s06(ctx):
    q = ctx.quick
    covers = [("idle time", dict(Players={"c1", "c2"}, Kinds={"key"}, Leaves={"rst"}, MaxPkt=2, MaxTick=4)),
              ("idle time behind an edge", dict(Streams={"e1"}, Edge={"e1"}, Pubs=set(), Players={"c1", "c2"}, Kinds={"key"}, Leaves={"rst"}, MaxPkt=2, MaxTick=4, MaxGen=2)),
              ("vanishing", dict(Players={"c1", "c2"}, Kinds={"key", "audio"}, Leaves={"fin", "rst"}, MaxPkt=3, MaxTick=0)),
              ("stalling", dict(Players={"c1", "c2"}, Kinds={"key"}, Leaves={"fin", "rst"}, MaxPkt=3, Stalls=True))]
    sims = [("long runs", dict(Streams={"s1", "e1"}, Edge={"e1"}, Players={"c1", "c2", "c3"}, Kinds={"vh", "key", "audio"}, Leaves={"fin", "rst"}, MaxPkt=99,
                               MaxGen=3, MaxTick=8, Stalls=True, Ends={"fin", "rst"}), 100 if q else 2500, 25)]
    races = [("leaving at once", raced(src=1, pubs=1, players=5, kinds=("key", "audio"), width=5, ticks=True), 240 if q else 8000)]
    run(ctx, covers, sims, 3000 if q else 50000, (), races)


def replay(ctx, rec):
    exe = build.build("drv_spsd", "plain")
    if "race" in rec:
        return race.replay(ctx, rec, exe)
    r = Runner(exe, rec["seed"], rec.get("block", 1))
    try:
        for c in rec["cases"]:
            m = r.run(c)
            if m:
                print(m)
                print("VIOLATION property=%s replay=given" % ctx.prop)
                return 1
    finally:
        r.close()
    print("the behaviour is as specified")
    return 0
