"""What all checks share: tiers, evidence, violations, known findings, parallel replay."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
NPROC = max(2, min(8, os.cpu_count() or 2))


class Inconclusive(Exception):
    """the machinery could not do its work: neither a pass nor a violation"""


def rnd(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


def worker_main(factory, cases, start, out, stop):
    """runs cases in order in one process; reports the first mismatch of the chunk"""
    n = steps = 0
    info = {}
    try:
        r = factory()
        try:
            for i, c in enumerate(cases):
                if stop.is_set():
                    break
                m = r.run(c)
                n += 1
                if m:
                    out.put(("bad", start, i, m))
                    break
            steps = getattr(r, "steps", 0)
            info = getattr(r, "info", lambda: {})() if hasattr(r, "info") else {}
        finally:
            r.close()
    except Exception:
        out.put(("error", start, 0, traceback.format_exc()))
    out.put(("done", start, n, (steps, info)))


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.stages = []
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.violations = []
        self.findings = []
        self.notes = []
        self.known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop] if os.path.exists(KNOWN) else []

    @property
    def quick(self):
        return self.tier == "quick"

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # ---------------------------------------------------------------- model
    def model(self, name, res, what=""):
        """a finished TLC run on the specification"""
        if res.violated:
            raise Inconclusive("the specification itself violates %s (%s):\n%s" % (res.violated, name, res.text[-3000:]))
        self.states += res.distinct
        self.transitions += res.generated
        self.stages.append({"stage": "model " + name, "states": res.distinct, "transitions": res.generated,
                            "depth": res.depth, "exhaustive": res.complete, "behaviours": len(res.behaviours),
                            "wall_s": round(res.wall, 2), **({"what": what} if what else {})})
        return res

    # --------------------------------------------------------------- replay
    def replay(self, name, cases, factory, procs=NPROC, extra=None):
        """as replay_once, again when a mismatch could not be repeated"""
        for attempt in range(3):
            ok = self.replay_once(name, cases, factory, procs, extra)
            if ok or self.violations:
                return ok
        return True

    def replay_once(self, name, cases, factory, procs, extra):
        """every case is performed on the real code; factory() makes a runner with
        run(case) -> None or text, and close().  A mismatch is believed only when a
        second, fresh run repeats it."""
        if not cases:
            raise Inconclusive("stage %s has nothing to replay" % name)
        t0 = time.time()
        cases = list(cases)
        random.Random(rnd(self.seed, name)).shuffle(cases)
        nch = max(1, min(procs, len(cases)))
        chunks = [cases[i::nch] for i in range(nch)]
        q = mp.Queue()
        stop = mp.Event()
        ps = [mp.Process(target=worker_main, args=(factory, ch, i, q, stop), daemon=True) for i, ch in enumerate(chunks)]
        for p in ps:
            p.start()
        done = nrun = steps = 0
        bad, errors, infos = [], [], []
        dead_since = {}
        while done < len(ps):
            try:
                kind, k, i, m = q.get(timeout=1.0)
            except Exception:
                for j, p in enumerate(ps):
                    if p.exitcode not in (None, 0):
                        raise Inconclusive("a replay worker died (exit %s)" % p.exitcode)
                continue
            if kind == "bad":
                bad.append((k, i, m))
                stop.set()
            elif kind == "error":
                errors.append(m)
                stop.set()
            else:
                done += 1
                nrun += i
                steps += m[0]
                infos.append(m[1])
        for p in ps:
            p.join()
        if errors and not bad:
            raise Inconclusive("stage %s: %s" % (name, errors[0]))
        st = {"stage": "replay " + name, "cases": nrun, "steps": steps, "wall_s": round(time.time() - t0, 2)}
        for inf in infos:
            for k, v in (inf or {}).items():
                st[k] = st.get(k, 0) + v
        self.stages.append(st)
        self.traces += nrun
        self.steps += steps
        if len(self.samples) < 6:
            self.samples.append({"stage": name, "case": trim(cases[0])})
        for k, i, m in bad:
            self.confirm(name, chunks[k], i, m, factory, extra)
            if self.violations:
                break
        return not bad

    def confirm(self, name, chunk, i, m, factory, extra=None):
        """repeat alone; when that passes repeat with everything that went before"""
        for attempt, cs in enumerate(([chunk[i]], chunk[max(0, i - 200):i + 1], chunk[:i + 1])):
            r = factory()
            try:
                msg = None
                for c in cs:
                    msg = r.run(c)
                    if msg:
                        break
            finally:
                r.close()
            if msg:
                self.violation(name, msg, {"stage": name, "cases": cs[-1:] if attempt == 0 else cs, "message": msg, **(extra or {})})
                return
        self.notes.append("stage %s: a mismatch did not repeat and was dropped: %s" % (name, m[:300]))

    def violation(self, stage, msg, replay):
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        json.dump({"property": self.prop, "seed": self.seed, **replay}, open(p, "w"), indent=1)
        self.violations.append((stage, msg, p))

    def finding(self, ident, text):
        """a listed genuine defect showed itself"""
        if ident not in [k["id"] for k in self.known]:
            self.violation("finding", text, {"stage": ident, "message": text})
        else:
            self.findings.append((ident, text))

    # -------------------------------------------------------------- evidence
    def finish(self):
        wall = round(time.time() - self.t0, 2)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "steps_compared": self.steps,
               "samples": self.samples, "stages": self.stages}
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": wall, "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for stage, msg, p in self.violations:
            print("%s [%s]: %s" % (self.prop, stage, msg[:3000]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: states=%d transitions=%d behaviours replayed=%d steps=%d violations=%d wall=%.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.steps, len(self.violations), wall))
        return 1 if self.violations else 0


def trim(o, n=1500):
    s = json.dumps(o, default=str)
    return o if len(s) <= n else s[:n] + "..."
