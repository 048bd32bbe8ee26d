"""F01: Conf.tla against the real configuration loader."""
import concurrent.futures as cf
import json
import random

import build
import judged
import tlc
from common import rnd


def tup(s):
    return tlc.Raw("<<%s>>" % ", ".join(str(c) for c in (s.encode("latin1") if isinstance(s, str) else s)))


def tset(ss):
    return tlc.Raw("{%s}" % ", ".join(tup(s) for s in ss))


def files(fs):
    return tlc.Raw("{%s}" % ", ".join("<<%s>>" % ", ".join(tup(l) for l in f) for f in fs))


def ask(d, x, r):
    return d.ask(["C %s" % (x["in"] or "-")])


def record(x, ans):
    a = ans[0]
    if a.startswith("ok "):
        out = {"v": "ok", "root": json.loads(a[3:])}
    elif a.startswith("fail"):
        out = {"v": "fail"}
    else:
        return "loading %r: %s" % (bytes.fromhex(x["in"])[:600], a[:300])
    return {"k": "conf", "in": list(bytes.fromhex(x["in"])), "out": out}


def nodes(t):
    yield t
    for s in t["s"]:
        yield from nodes(s)


def corrupt(rec, r):
    o = rec["out"]
    if o["v"] == "fail":
        return None
    ns = [n for n in nodes(o["root"]) if n["o"]]
    if not ns or r.random() < .2:
        o.clear()
        o["v"] = "fail"
        return rec
    n = r.choice(ns)
    k = r.randrange(3)
    if k == 0:
        p = r.choice(n["o"])
        for q in n["o"]:        # the table may list an option twice
            if q[0] == p[0]:
                q[1] = q[1] + [49]
    elif k == 1:
        n["n"] = n["n"] + [120]
    else:
        n["s"] = n["s"] + [{"t": "host", "n": [104], "o": [], "s": []}]
    return rec


OPTS = {
    "http": {"keepalive_timeout": "int", "access_log": "str"},
    "server": {"listen_port": "int", "server_name": "str", "transport": "str", "recv_timeout": "big", "send_timeout": "big", "reuse_port": "bool", "backlog": "int",
               "ssl_key_file": "str", "ssl_crt_file": "str"},
    "host": {"enabled": "bool", "pass_proxy": "str", "pass_url": "str", "role": "str", "type": "str", "edge_avformat": "str", "ssl_key_file": "str", "ssl_crt_file": "str"},
    "stream": {"avformat": "str", "edge": "bool", "pass_proxy": "str"},
    "upstream": {"name": "str", "server": "str", "keepalive": "int"},
    "globalhost": {}, "root": {},
}
SUBS = {"root": ["http", "http", "upstream", "globalhost"], "http": ["server"], "server": ["host"], "globalhost": ["host"], "host": ["stream", "upstream"]}
STRS = ["127.0.0.1:8080", "flv", "all", "a b", "a  b c", "x=1&y=2", "http://h/p?q", "\"quoted\"", "{", "a{b", "a;b", "a}b", "x;", "-", "on", "%s%n", "./a/b.key", "v" * 40,
        "\xe9\xff", "a#b", "one two three four", "", "*", "/", "source", "edge", "stream"]
HOSTS = ["a.com", "*", "*.b.com", "h", "127.0.0.1", "x y", "a-b.c"]


def val(kind, r):
    if kind == "int":
        if r.random() < .01:
            return r.choice(["1x", "", "+1", "007", "99999999999"])
        return r.choice(["0", "1", "80", "8080", "65535", "1935", "-1", "1000000", "999999999", "-5", "7"])
    if kind == "big":
        if r.random() < .01:
            return r.choice(["1x", "", "+1", "007", "99999999999999999999"])
        return r.choice(["0", "1", "-1", "30000000", "2147483648", "3600000000", "999999999999999999", "-7200000000", "4294967296"])
    if kind == "bool":
        return r.choice(["on", "off"] * 60 + ["ON", "1", "offon"])
    return "#no" if r.random() < .01 else r.choice(STRS)


def ws(r):
    return r.choice((" ", " ", " ", "  ", "\t", " \t ", "\v", "\f"))


def end(c, r):
    return r.choice(("", "", " ", "\t")) + c


def dress(l, r, neat):
    if neat:
        return l
    l = r.choice(("", "    ", "\t", "\t\t", " ")) + l + r.choice(("", "", "", " ", "\t", "\r", " # x", "\t#; {", " #} y"))
    return l


def block(t, r, depth, neat, out):
    os_ = list(OPTS[t])
    r.shuffle(os_)
    body = []
    for o in os_[:r.choice((0, 1, 2, 3, len(os_)))]:
        body.append([dress(o + ws(r) + val(OPTS[t][o], r) + end(";", r), r, neat)])
    for _ in range(r.choice((0, 0, 1)) if t not in ("root",) else 0):
        body.append([dress(r.choice(("unknown 1;", "x y z;", "Listen_port 9;", "listen_ports 9;", "rol a;", "nam b;")), r, neat)])
    subs = SUBS.get(t, [])
    n = r.choice((0, 1, 1, 2, 3)) if t not in ("host",) else r.choice((0, 0, 0, 1, 2))
    if t == "root":
        n = r.choice((1, 2, 2, 3, 4))
    used = set()
    for _ in range(n if subs else 0):
        s = r.choice(subs)
        if t == "host" and s in used:
            continue
        used.add(s)
        name = r.choice(HOSTS) if s == "host" else r.choice(("", "", "up1", "n 1"))
        sub = [dress(s + ws(r) + (name + " " if name else "") + "{" if r.random() < .8 or not name else s + " " + name + "{", r, neat)]
        block(s, r, depth + 1, neat, sub)
        sub.append(dress("}", r, neat))
        body.append(sub)
    r.shuffle(body)
    for b in body:
        out += b
        if not neat and r.random() < .2:
            out.append(r.choice(("", "  ", "# c", "#c {", "\t# } ;", "##", "\r", "#" + "z" * r.choice((1, 500, 5000)))))


def text(r, neat=False):
    ls = []
    block("root", r, 0, neat, ls)
    return ls


def good(r):
    ls = text(r, r.random() < .3)
    t = "\n".join(ls) + r.choice(("\n", "\n", "", "\n\n", "\n# end", "\n\t"))
    return t.encode("latin1")


def bad(r):
    ls = text(r, r.random() < .6)
    if not ls:
        ls = ["http {", "}"]
    for _ in range(r.choice((1, 1, 1, 2))):
        i = r.randrange(len(ls))
        k = r.randrange(11)
        if k == 0:
            del ls[i]
        elif k == 1:
            ls.insert(i, "}")
        elif k == 2:
            ls.insert(i, r.choice(("{", "http", "server {", "host a.com {", "host {", "stream {", "x {", "location / {", "root {", "rtmp {", ";", "a", "}}", "} }", "};", "}#", "} #", "x }", "x}",
                                   "a b; c d;", "a b; }", "{ }", "http { }", "http {}", "http { listen_port 1;", "server 1;", "host x;", "http 1;", "upstream u;", "globalhost 1;", "listen_port;", "listen_port{")))
        elif k == 3:
            ls[i] = ls[i].replace(";", "", 1)
        elif k == 4:
            ls[i] = ls[i].replace("{", r.choice(("", ";", "{{", "}")), 1)
        elif k == 5:
            ls[i] = ls[i].replace("}", r.choice(("", ";", "{", "}}", "} x")), 1)
        elif k == 6:
            j = r.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
        elif k == 7:
            ls.insert(i, ls[r.randrange(len(ls))])
        elif k == 8:
            ls[i] = ls[i] + (ls[i + 1] if i + 1 < len(ls) else "}")
            if i + 1 < len(ls):
                del ls[i + 1]
        elif k == 9 and ls[i]:
            j = r.randrange(len(ls[i]))
            ls[i] = ls[i][:j] + r.choice(" ;{}#\t\n\0x") + ls[i][j + r.randrange(2):]
        else:
            ls = ls[:i + 1]
        if not ls:
            return b""
    t = "\n".join(ls) + r.choice(("\n", ""))
    return t.encode("latin1")


SAMPLE = ["# sample", "globalhost {", "\thost * {", "\t\trole source;", "\t}", "}", "http {", "  keepalive_timeout 7;", "  server {", "    listen_port 8080; # p", "    host a.com {",
          "      pass_proxy 127.0.0.1:81;", "      type stream;", "    }", "  }", "}", "upstream up {", "server 1.2.3.4 5;", "}"]


def f01(ctx):
    q = ctx.quick
    starts = [[], ["http {", "server {"], ["globalhost {", "host * {"], ["http {", "server {", "}", "}", "globalhost {", "host g {", "}", "}"], ["http {", "server {", "host a {"]]
    pool = ["http {", "server {", "host h{", "globalhost {", "upstream u 1 {", "}", "listen_port 81;", "role source ;", "pass_proxy 1 2;", "enabled off;", "reuse_port on;", "keepalive_timeout 3;",
            "server x;", "bogus 1;"]
    if not q:
        pool += ["stream {", "host {", "name n;", "rtmp 1;", "listen_port", "role a; role b;", "transport udp;"]
    c = dict(Starts=files(starts), Pool=tset(pool), Noise=tset(["", "  ", "#", "# x {", "\t#};"]), Indents=tset([" ", "\t\t"]), Tails=tset([" #", "\t# x;"]), MaxLines=4)
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build.build, "drv_conf", "san")
        f = ex.submit(tlc.run, "ConfGen", tlc.cfg_text(c, spec="Spec", invariants=("Braces", "Written", "Global"), action_constraint="Emit"), workers=6, timeout=800)
        exe = fb.result()
        res = ctx.model("all small files: noise changes nothing, braces match, rendering is inverted, global hosts belong to every server", f.result())
    ins = [{"in": bytes(b["text"]).hex()} for b in res.behaviours]
    lim = 2500 if q else 60000
    if len(ins) > lim:
        ins = sorted(ins, key=lambda x: rnd(ctx.seed, str(x)))[:lim]
    if not judged.recorded(ctx, exe, ins, "files of the specification", "ConfTrace", ask, record, corrupt):
        return
    r = random.Random(rnd(ctx.seed, "f01"))
    ins = [{"in": good(r).hex()} for _ in range(700 if q else 15000)] + [{"in": bad(r).hex()} for _ in range(1300 if q else 30000)]
    if not judged.recorded(ctx, exe, ins, "generated and damaged files", "ConfTrace", ask, record, corrupt):
        return
    # every truncation, every line dropped, doubled or exchanged with its neighbour, every byte changed
    t = "\n".join(SAMPLE) + "\n"
    ins = [t[:i] for i in range(len(t) + 1)]
    for i in range(len(SAMPLE)):
        ins.append("\n".join(SAMPLE[:i] + SAMPLE[i + 1:]))
        ins.append("\n".join(SAMPLE[:i] + SAMPLE[i:i + 1] + SAMPLE[i:]))
        ins.append("\n".join(SAMPLE[:i] + SAMPLE[i + 1:i + 2] + SAMPLE[i:i + 1] + SAMPLE[i + 2:]))
    for i in range(len(t)):
        for v in " ;{}#\n" if q else " ;{}#\n\r\tx0\0\xff":
            ins.append(t[:i] + v + t[i + 1:])
            if not q:
                ins.append(t[:i] + v + t[i:])
    judged.recorded(ctx, exe, [{"in": x.encode("latin1").hex()} for x in ins], "every truncation, line and byte change of a file", "ConfTrace", ask, record)


def replay(ctx, rec):
    return judged.replay_one(ctx, build.build("drv_conf", "san"), "ConfTrace", ask, record, rec["input"])
