"""Runs TLC: exhaustive checks, behaviour generation, simulation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """the model, not the code, is at fault"""


class Result:
    def __init__(self):
        self.behaviours = []
        self.lines = []
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.wall = 0.0
        self.complete = False
        self.violated = None     # name of violated invariant/property
        self.text = ""


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla(x) for x in v))
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(x) for x in v)
    raise TypeError(v)


def cfg_text(constants, spec="GSpec", view=None, invariants=(), properties=(),
             action_constraint=None, constraint=None, extra=""):
    out = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    defs = []
    if constants:
        out.append("CONSTANTS")
        for k, v in constants.items():
            if isinstance(v, Raw):
                defs.append("def_%s == %s" % (k, v))
                out.append("  %s <- def_%s" % (k, k))
            else:
                out.append("  %s = %s" % (k, tla(v)))
    if view:
        out.append("VIEW " + view)
    for i in invariants:
        out.append("INVARIANT " + i)
    for p in properties:
        out.append("PROPERTY " + p)
    if action_constraint:
        out.append("ACTION_CONSTRAINT " + action_constraint)
    if constraint:
        out.append("CONSTRAINT " + constraint)
    if extra:
        out.append(extra)
    c = Cfg("\n".join(out) + "\n")
    c.defs = defs
    return c


class Cfg(str):
    defs = ()


def closure(module):
    """the module and what it extends, directly or not: TLC evaluates constant
    definitions once only in modules the root module itself extends"""
    out, todo = [], [module]
    while todo:
        m = todo.pop(0)
        path = os.path.join(SPEC, m + ".tla")
        if m in out or not os.path.exists(path):
            continue
        out.append(m)
        e = re.search(r"^EXTENDS(.*)$", open(path).read(), re.M)
        todo += [x.strip() for x in e.group(1).split(",")] if e else []
    return out


class Raw(str):
    """a TLA+ expression for a constant (defined in a generated module, as a
    .cfg file cannot hold sequences or records)"""


def run(module, cfg, workers=1, simulate=None, depth=None, seed=None, timeout=600,
        heap="3g", env=None, keep=None, deadlock_ok=True):
    """module: name of a .tla in /verif/spec.  Returns Result; raises TlcError when
    TLC itself fails (parse error, evaluation error, out of time)."""
    work = tempfile.mkdtemp(prefix="tlc.")
    try:
        name = module
        defs = getattr(cfg, "defs", ())
        path = os.path.join(SPEC, module + ".tla")
        if defs:
            name = "MC"
            path = os.path.join(work, "MC.tla")
            with open(path, "w") as f:
                f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" % (", ".join(closure(module)), "\n".join(defs)))
        cfgp = os.path.join(work, name + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-DTLA-Library=" + SPEC, "-cp", CP,
               "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(work, "states"),
               "-workers", str(workers), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
            if seed is not None:
                cmd += ["-seed", str(seed), "-aril", "0"]
        cmd.append(path)
        t0 = time.time()
        e = dict(os.environ)
        e.update(env or {})
        outp = os.path.join(work, "out")
        with open(outp, "wb") as o:
            try:
                rc = subprocess.run(cmd, stdout=o, stderr=subprocess.STDOUT, cwd=work, timeout=timeout, env=e).returncode
            except subprocess.TimeoutExpired:
                raise TlcError("TLC on %s: out of time (%d s)" % (module, timeout))
        r = Result()
        r.wall = time.time() - t0
        rest = []
        seen = set()
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"B:'):
                    if line not in seen:
                        seen.add(line)
                        r.behaviours.append(json.loads(json.loads(line)[2:]))
                elif line.startswith('"L:'):
                    r.lines.append(json.loads(line)[2:])
                else:
                    rest.append(line)
        r.text = "".join(rest)
        m = re.findall(r"(\d[\d,]*) states generated(?:[^,]*), (\d[\d,]*) distinct states", r.text)
        if m:
            r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"Progress: (\d[\d,]*) states checked|The number of states generated: (\d[\d,]*)", r.text)
            if m:
                r.generated = int((m[-1][1] or m[-1][0]).replace(",", ""))
        m = re.findall(r"The depth of the complete state graph search is (\d+)", r.text)
        if m:
            r.depth = int(m[-1])
        r.complete = "Model checking completed. No error has been found." in r.text
        m = re.search(r"(?:Invariant|Action property|Temporal property|Property) (\S+) is violated", r.text)
        if m:
            r.violated = m.group(1)
        elif "Temporal properties were violated" in r.text:
            r.violated = "temporal property"
        elif "POSTCONDITION" in r.text and "violated" in r.text or "Postcondition" in r.text and "violated" in r.text:
            r.violated = "postcondition"
        elif rc != 0:
            raise TlcError("TLC on %s failed (exit %d):\n%s" % (module, rc, r.text[max(0, r.text.find("Error:")):][:1500] + "\n...\n" + r.text[-1500:]))
        elif not simulate and not r.complete:
            raise TlcError("TLC on %s did not finish:\n%s" % (module, r.text[max(0, r.text.find("Error:")):][:1500] + "\n...\n" + r.text[-1500:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def prune_prefixes(behs):
    """drop behaviours that are prefixes of others (they are replayed anyway)"""
    keyed = sorted(((tuple(json.dumps(s, sort_keys=True) for s in b), i) for i, b in enumerate(behs)))
    out = []
    for j, (k, i) in enumerate(keyed):
        if j + 1 < len(keyed) and keyed[j + 1][0][:len(k)] == k:
            continue
        out.append(behs[i])
    return out


def thin(behs, per=1):
    """simulation prints every successor of the last state: keep `per` of them"""
    n, out = {}, []
    for b in behs:
        k = json.dumps(b[:-1], sort_keys=True)
        n[k] = n.get(k, 0) + 1
        if n[k] <= per:
            out.append(b)
    return out


def thin2(behs, per=1):
    """as thin, for behaviours wrapped in a record with the history in "h" """
    n, out = {}, []
    for b in behs:
        k = json.dumps([b["h"][:-1], {x: y for x, y in b.items() if x != "h"}], sort_keys=True)
        n[k] = n.get(k, 0) + 1
        if n[k] <= per:
            out.append(b)
    return out
