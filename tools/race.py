"""Concurrent runs of the real server, recorded and judged by LiveTrace.tla."""
import json
import os
import random
import tempfile
import time

import live
import tlc
from common import rnd, Inconclusive
from e2e import ServerDied

ALLK = ["script", "ah", "vh", "key", "inter", "audio"]


class Race(live.Replay):
    patience = 0.0005

    def query(self, st, r):
        return live.QUERIES[rnd(self.h, st["s"]) % len(live.QUERIES)]

    def collect_up(self, got):
        while True:
            c = self.rig.accept()
            if not c:
                return
            c.wait(lambda c: b"\r\n\r\n" in c.buf, 2.0)
            line = c.buf.split(b"\r\n")[0].decode("latin1")
            name = None
            for s in self.cfg["edge"]:
                if line.split(" ")[:2] == ["GET", self.path(s) + ".flv" + self.query({"s": s}, 0)]:
                    name = s
            got["up"].append(name or "request:%s" % line)
            if name and name not in self.ups:
                self.ups[name] = live.PubConn(c, "raw")
                self.ups[name].answered = False
            elif name:
                self.spare.append(c)     # a second pull: seen by the specification
            else:
                c.close()

    def quiet(self, batch_conns):
        """everything observed until nothing more comes"""
        got = {c: [] for c in batch_conns}
        still = 0
        n = 0
        while still < 3 and n < 400:
            self.rig.srv.ping()
            before = json.dumps(got)
            for x, c in self.pubs.items():
                got[x] += c.events()
            for x, c in self.pls.items():
                got[x] += c.events(self.ident)
            self.collect_up(got)
            n += 1
            still = still + 1 if json.dumps(got) == before else 0
            if still:
                time.sleep(self.patience)
        for x in [x for x, c in self.pubs.items() if c.closed]:
            self.pubs.pop(x).conn.close()
        for x in [x for x, c in self.pls.items() if c.closed]:
            self.pls.pop(x).conn.close()
        return got

    def choose(self, r):
        """one batch of events on different connections, possible as far as the clients can tell"""
        cfg = self.cfg
        cand = []
        for c in cfg["pubs"]:
            if c not in self.pubs:
                cand += [{"a": "PubStart", "c": c, "s": r.choice(cfg["src"]), "e": "flv"}] * 3 if cfg["src"] else []
            else:
                cand += [{"a": "PubSend", "c": c, "k": [r.choice(cfg["kinds"]) for _ in range(r.choice((1, 1, 2)))]}] * 5
                cand.append({"a": "PubEnd", "c": c, "how": r.choice(("fin", "rst", "half", "bad"))})
        for p in cfg["players"]:
            c = self.pls.get(p)
            if c is None or c.done:
                cand += [{"a": "Play", "p": p, "s": r.choice(cfg["src"] + cfg["edge"])}] * 5
            else:
                cand.append({"a": "Leave", "p": p, "how": r.choice(("fin", "rst"))})
        for s in cfg["edge"]:
            u = self.ups.get(s)
            if u and not u.answered:
                cand += [{"a": "UpAnswer", "s": s}] * 4 + [{"a": "UpRefuse", "s": s, "how": r.choice(("404", "drop", "500", "206"))}] * 2
            elif u:
                cand += [{"a": "UpSend", "s": s, "k": [r.choice(cfg["kinds"]) for _ in range(r.choice((1, 1, 2)))]}] * 5
                cand += [{"a": "UpEnd", "s": s, "how": r.choice(("fin", "rst"))}]
        r.shuffle(cand)
        evs, used = [], set()
        for e in cand:
            who = e.get("c") or e.get("p") or "up" + e["s"]
            if who not in used:
                used.add(who)
                evs.append(dict(e))
            if len(evs) >= cfg["width"]:
                break
        return evs

    def race(self, cfg, key, script=None):
        """performs a run; returns (record, None) or (record so far, text when the server died)"""
        self.cfg = cfg
        self.serial += 1
        self.h = rnd(self.seed, "race", key)
        self.tag = "r%d_%x" % (self.serial, self.h & 0xffff)
        self.pubs, self.pls, self.ups, self.byident, self.spare = {}, {}, {}, {}, []
        self.big, self.block = False, 1
        self.i = 0
        self.held = True
        r = random.Random(rnd(self.seed, "choose", key))
        conns = cfg["pubs"] + cfg["players"] + ["up"]
        n = 0
        rec = {"key": key, "batches": []}
        try:
            for b in range(cfg["len"] if script is None else len(script)):
                if script is not None:
                    evs = [e for e in script[b] if self.possible(e)]
                elif cfg.get("ticks") and r.random() < .12:
                    evs = [{"a": "Tick", "d": r.choice((49, 52))}]
                else:
                    evs = self.choose(r)
                if not evs:
                    continue
                for e in evs:
                    if "k" in e:
                        e["n"] = n + 1
                        n += len(e["k"])
                self.rig.srv.hold()
                for j, e in enumerate(evs):
                    self.i = b * 10 + j
                    if e["a"] == "UpAnswer":
                        self.ups[e["s"]].answered = True
                    if e["a"] != "Tick":
                        self.perform(e)
                self.rig.srv.go()
                for e in evs:
                    if e["a"] == "Tick":
                        self.rig.srv.advance(e["d"] * 100)
                got = self.quiet(conns)
                rec["batches"].append({"evs": evs, "obs": {c: [json.dumps(x) for x in v] for c, v in got.items() if v}})
        except ServerDied as e:
            return rec, str(e)
        finally:
            for c in list(self.pubs.values()) + list(self.pls.values()) + list(self.ups.values()):
                c.conn.close()
            for c in self.spare:
                c.close()
            try:
                if self.rig.srv.alive():
                    while True:
                        self.rig.srv.ping()
                        c = self.rig.accept()
                        if not c:
                            break
                        c.close()
                    self.rig.srv.advance(11000)
            except ServerDied:
                pass
        return rec, None

    def possible(self, e):
        if e["a"] == "PubStart":
            return e["c"] not in self.pubs
        if e["a"] in ("PubSend", "PubEnd"):
            return e["c"] in self.pubs
        if e["a"] == "Play":
            return e["p"] not in self.pls or self.pls[e["p"]].done
        if e["a"] == "Leave":
            return e["p"] in self.pls and not self.pls[e["p"]].done
        if e["a"] in ("UpAnswer", "UpRefuse"):
            return e["s"] in self.ups and not self.ups[e["s"]].answered
        if e["a"] in ("UpSend", "UpEnd"):
            return e["s"] in self.ups and self.ups[e["s"]].answered
        return True


class RaceRunner:
    """case: (cfg, key); collects the records, which are judged afterwards"""

    def __init__(self, exe, seed):
        self.rig = live.Rig(exe)
        self.rep = Race(self.rig, seed)

    def close(self):
        self.rig.close()


def judge(cfg, recs, timeout=600):
    """indices of the runs that no order of events explains"""
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
        path = f.name
    consts = dict(Streams=set(cfg["src"] + cfg["edge"]), Edge=set(cfg["edge"]), Pubs=set(cfg["pubs"]), Players=set(cfg["players"]),
                  Kinds=set(cfg["kinds"]), Ends={"fin"}, Leaves={"fin"}, Exts={"flv"}, MaxPkt=100000, MaxTick=100000, Ticks={49, 52},
                  MaxGen=100000, Burst=False, Stalls=False)
    try:
        res = tlc.run("LiveTrace", tlc.cfg_text(consts, spec="TSpec", view="TView", invariants=("Sane",)),
                      env={"TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    if res.violated:
        raise Inconclusive("LiveTrace violates " + res.violated)
    ok = {int(x) - 1 for x in res.lines}
    return [j for j in range(len(recs)) if j not in ok], res


def work(args, patience=None):
    exe, seed, cfg, keys = args
    r = RaceRunner(exe, seed)
    if patience:
        r.rep.patience = patience
    out = []
    try:
        for k in keys:
            rec, died = r.rep.race(cfg, k)
            out.append((rec, died))
            if died:
                break
    finally:
        r.close()
    return out


def corrupt(rec, r):
    """a record nothing can explain: an observation doubled or altered (a dropped one may be explained by another order)"""
    rec = json.loads(json.dumps(rec))
    spots = [(b, c) for b in rec["batches"] for c in b["obs"] if c != "up" and any(x.isdigit() for x in b["obs"][c])]
    if not spots:
        return None
    b, c = r.choice(spots)
    o = b["obs"][c]
    j = r.choice([j for j, x in enumerate(o) if x.isdigit()])
    if r.randrange(2) == 0:
        o.insert(j, o[j])
    else:
        o[j] = "99999"
    return rec


def stage(ctx, name, exe, cfg, num):
    import concurrent.futures as cf
    keys = ["%s %d" % (name, j) for j in range(num)]
    np = 8
    with cf.ProcessPoolExecutor(np) as ex:
        res = [x for part in ex.map(work, [(exe, ctx.seed, cfg, keys[j::np]) for j in range(np)]) for x in part]
    died = [x for x in res if x[1]]
    recs = [x[0] for x in res if not x[1] and x[0]["batches"]]
    shards = [s for s in (recs[j::6] for j in range(6)) if s]
    bad, states, trans = [], 0, 0
    with cf.ThreadPoolExecutor(6) as ex:
        for s, (rej, r) in zip(shards, ex.map(lambda s: judge(cfg, s), shards)):
            bad += [s[j] for j in rej]
            states += r.distinct
            trans += r.generated
    ctx.states += states
    ctx.transitions += trans
    ctx.traces += len(recs)
    steps = sum(len(b["evs"]) for r in recs for b in r["batches"])
    ctx.steps += steps
    ctx.stages.append({"stage": "concurrent runs " + name, "runs": len(recs), "events": steps, "states": states, "not explained": len(bad)})
    if len(ctx.samples) < 6 and recs:
        ctx.samples.append({"stage": name, "case": json.dumps(recs[0])[:1500]})
    if not bad and not died:
        r = random.Random(rnd(ctx.seed, name))
        cs = [x for x in (corrupt(rec, r) for rec in recs[:60]) if x][:25]
        if cs:
            rej, _ = judge(cfg, cs)
            if len(rej) != len(cs):
                raise Inconclusive("LiveTrace accepted a corrupted run: %s" % [json.dumps(c) for j, c in enumerate(cs) if j not in rej][0][:2000])
        return True
    for rec, d in died:
        script = [b["evs"] for b in rec["batches"]]
        # the batch at which it died is not in the record: run the same choices again
        again = work((exe, ctx.seed, cfg, [rec["key"]]))
        if again and again[-1][1]:
            ctx.violation(name, "the server died in a concurrent run: %s" % again[-1][1], {"stage": name, "race": cfg, "key": rec["key"], "message": d})
            return False
    for rec in bad[:3]:
        again = work((exe, ctx.seed, cfg, [rec["key"]]), patience=0.08)
        if again and not again[0][1]:
            rej, _ = judge(cfg, [again[0][0]])
            if rej:
                short = shrink(exe, ctx.seed, cfg, rec["key"], [b["evs"] for b in again[0][0]["batches"]])
                ctx.violation(name, "no order of the events explains this run: %s" % json.dumps(short["batches"][-3:])[:2500],
                              {"stage": name, "race": cfg, "key": rec["key"], "record": short})
                return False
        elif again and again[0][1]:
            ctx.violation(name, "the server died in a concurrent run: %s" % again[0][1], {"stage": name, "race": cfg, "key": rec["key"]})
            return False
    ctx.notes.append("stage %s: an unexplained run did not repeat and was dropped" % name)
    return True


def shrink(exe, seed, cfg, key, script):
    """the shortest rejected prefix of the run"""
    r = RaceRunner(exe, seed)
    r.rep.patience = 0.08
    try:
        rec, died = r.rep.race(cfg, key)
    finally:
        r.close()
    lo = rec
    for n in range(1, len(rec["batches"]) + 1):
        p = dict(rec, batches=rec["batches"][:n])
        if judge(cfg, [p])[0]:
            return p
    return lo


def replay(ctx, rec, exe):
    cfg = rec["race"]
    out = work((exe, rec["seed"], cfg, [rec["key"]]))
    r, died = out[0]
    if died:
        print(died)
        return 1
    rej, _ = judge(cfg, [r])
    print(json.dumps(r)[:3000])
    print("not explained by the specification" if rej else "as specified")
    return 1 if rej else 0
