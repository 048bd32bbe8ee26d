"""Recorded runs of the real code, judged record by record by a trace
specification (spec/*Trace.tla) that TLC evaluates."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import random
import tempfile

import tlc
from common import rnd, Inconclusive
from drv import Driver, DriverDied


def judge(module, recs, timeout=600):
    """(indices rejected, indices not decided, TLC result)"""
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
        path = f.name
    try:
        res = tlc.run(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Conforms\n", env={"TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    if res.distinct < len(recs):
        raise Inconclusive("%s looked at %d of %d records" % (module, res.distinct, len(recs)))
    bad, open_ = [], []
    for l in res.lines:
        v, i = l.split()
        (open_ if v == "any" else bad).append(int(i) - 1)
    return sorted(set(bad)), sorted(set(open_)), res


def _drive(a):
    exe, items, seed, ask, record = a
    d = Driver(exe)
    out = []
    try:
        for k, x in items:
            r = random.Random(rnd(seed, k, repr(x)))
            try:
                ans = ask(d, x, r)
            except DriverDied as e:
                out.append((k, None, str(e), None))
                break
            rec = record(x, ans)
            if isinstance(rec, str):
                out.append((k, None, rec, ans))
                break
            out.append((k, rec, None, None))
    finally:
        d.close()
    return out


def recorded(ctx, exe, inputs, name, module, ask, record, corrupt=None, procs=6, shards=6):
    """offers the inputs (JSON-able) to the driver; ask(driver, input, random) performs
    it, record(input, answer) -> record for the trace specification or a text when the
    observation cannot be expressed (a mismatch)"""
    items = list(enumerate(inputs))
    if not items:
        raise Inconclusive("%s: nothing to do" % name)
    parts = [items[i::procs] for i in range(procs) if items[i::procs]]
    with mp.Pool(len(parts)) as pool:
        got = pool.map(_drive, [(exe, p, ctx.seed, ask, record) for p in parts])
    recs, bad = {}, None
    for g in got:
        for k, rec, err, ans in g:
            if err:
                if bad is None or k < bad[0]:
                    bad = (k, err)
            else:
                recs[k] = rec
    keys = sorted(recs)
    n = max(1, min(shards, len(keys) // 150 + 1))
    groups = [keys[i::n] for i in range(n)]
    rejected, opened = [], 0
    with cf.ThreadPoolExecutor(6) as ex:
        for ks, (b, o, res) in zip(groups, ex.map(lambda ks: judge(module, [recs[k] for k in ks]), groups)) if keys else []:
            rejected += [ks[j] for j in b]
            opened += len(o)
            ctx.states += res.distinct
            ctx.transitions += res.generated
    if corrupt and keys and not rejected and not bad:
        r = random.Random(rnd(ctx.seed, name, "corrupt"))
        cs = []
        for k in r.sample(keys, min(len(keys), 200)):
            c = corrupt(json.loads(json.dumps(recs[k])), r)
            if c is not None:
                cs.append((k, c))
        b, o, _ = judge(module, [c for _, c in cs]) if cs else ([], [], None)
        acc = set(range(len(cs))) - set(b) - set(o)
        if acc:
            j = min(acc)
            raise Inconclusive("%s accepted a corrupted record: %s" % (module, json.dumps(cs[j][1])[:1500]))
        if not b:
            raise Inconclusive("%s refused no corrupted record" % module)
        ctx.stages.append({"stage": "binding " + name, "corrupted_records_refused": len(b), "undecided": len(o)})
    ctx.traces += len(recs)
    ctx.steps += len(recs)
    ctx.stages.append({"stage": "recorded runs " + name, "cases": len(recs), "rejected": len(rejected), "undecided_by_the_specification": opened})
    if len(ctx.samples) < 6 and keys:
        ctx.samples.append({"stage": name, "case": json.dumps(recs[keys[len(keys) // 2]])[:800]})
    if rejected and bad is None:
        if os.environ.get("VERIF_ALL"):
            open(os.environ["VERIF_ALL"], "w").write("\n".join(json.dumps(recs[k]) for k in rejected))
        k = min(rejected, key=lambda x: len(json.dumps(recs[x])))
        bad = (k, "the specification rejects this run (%d of %d records rejected): %s" % (len(rejected), len(recs), json.dumps(recs[k])[:1800]))
    if bad:
        ctx.violation(name, bad[1], {"stage": name, "message": bad[1], "judged": name, "input": inputs[bad[0]]})
        return False
    return True


def replay_one(ctx, exe, module, ask, record, inp):
    out = _drive((exe, [(0, inp)], ctx.seed, ask, record))
    k, rec, err, ans = out[0]
    if err:
        print(err)
        return 1
    bad, op, _ = judge(module, [rec])
    print(json.dumps(rec)[:3000], "rejected" if bad else "not decided" if op else "accepted")
    return 1 if bad else 0
