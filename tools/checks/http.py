"""H01 H02 H03 H06: HttpHead, HttpBody, HttpResp and Url against the real code."""
import concurrent.futures as cf
import random

import build
import judged
import tlc
from common import rnd

SEGS = ["1", "2", "3", "5", "1000000", "7,1", "1,1,9", "4,2", "13,2,40", "100,1"]
SIZES = ["1", "2", "3", "7", "16", "1024", "65536", "1,5", "4096,1,2"]


def unhex(s):
    return b"" if s == "-" else bytes.fromhex(s)


def codes(s):
    return list(unhex(s))


def pairs(s):
    if s == "-":
        return []
    out = []
    for t in s.split(","):
        k, w = t.split(":")
        out.append({"k": codes(k), "w": codes(w)})
    return out


def seg(b, r):
    return "1" if len(b) < 40 and r.random() < .4 else r.choice(SEGS)


# ------------------------------------------------------------------ heads
def ask_head(d, x, r):
    b = bytes.fromhex(x["in"])
    h = b.hex() or "-"
    ss = [seg(b, r), r.choice(SEGS), "1000000"]
    return d.ask(["HH %s %s %s" % (x["t"], s, h) for s in ss])


def record_head(x, ans):
    b = bytes.fromhex(x["in"])
    if any(a != ans[0] for a in ans) and not (all(a.startswith("F") for a in ans)):
        return "the head is parsed differently depending on how it is split: %s" % ans
    t = ans[0].split(" ")
    if t[0] == "F":
        used = [int(a.split(" ")[1]) for a in ans]
        e = b.find(b"\r\n\r\n")
        # a head that is refused: nothing beyond its end may have been consumed (lone line ends aside)
        if 0 <= e <= 2044 and max(used) > e + 4:
            return "%d bytes were consumed of a head of %d" % (max(used), e + 4)
        if max(used) > 2048:
            return "%d bytes were consumed for a head" % max(used)
        out = {"v": "fail"}
    elif t[0] == "M" and x["t"] == "q":
        used, method, schema, host, port, path, params, url, ext, pp, target, cl, chunked, hs = t[1:]
        out = {"v": "msg", "used": int(used), "method": codes(method), "target": codes(target), "path": codes(path), "query": codes(params),
               "host": codes(host), "port": int(port), "headers": pairs(hs), "cl": [] if cl == "-1" else [ord(c) for c in cl], "chunked": chunked == "1"}
        if codes(url) != codes(target) and b"#" not in bytes(codes(target)):
            out["target"] = codes(url)
    elif t[0] == "M":
        used, status, cl, chunked, hs = t[1:]
        out = {"v": "msg", "used": int(used), "status": int(status), "headers": pairs(hs), "cl": [] if cl == "-1" else [ord(c) for c in cl], "chunked": chunked == "1"}
    else:
        return "observed %s" % ans[0][:300]
    return {"k": "head", "req": x["t"] == "q", "in": list(b), "out": out}


def corrupt_head(rec, r):
    o = rec["out"]
    if o["v"] == "fail":
        return None
    k = r.randrange(4)
    if k == 0:
        o["used"] += 1
    elif k == 1 and o["headers"]:
        o["headers"].pop()
    elif k == 2:
        o["chunked"] = not o["chunked"]
    else:
        o["cl"] = o["cl"] + [49]
    return rec


def tup(s):
    return tlc.Raw("<<%s>>" % ", ".join(str(c) for c in (s.encode("latin1") if isinstance(s, str) else s)))


def tset(ss):
    return tlc.Raw("{%s}" % ", ".join(tup(s) for s in ss))


HOSTS = ["a.com", "Live.example-1.org", "127.0.0.1", "a", "x.y.z:8080", "a.com:80", "b.c:1", "b.c:65535"]
METHODS = ["GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH"]
NAMES = ["Accept", "X-Id", "Cookie", "User-Agent", "a", "A!#$%&'*+-.^_`|~0", "Connection", "Range", "Referer"]
VALUES = ["", "1", "a b", "x:y", "text/html, */*;q=0.8", "bytes=0-", "close", "keep-alive", "\"q\"", "%s%n", "a\tb", "=&?"]


def casing(s, r):
    return r.choice((s, s.lower(), s.upper(), "".join(r.choice((c.lower(), c.upper())) for c in s)))


def target(r):
    p = "/" + "".join(r.choice("abcXYZ019._-~%/!$'()*+,;:@=&") for _ in range(r.choice((0, 1, 3, 8, 20))))
    q = "".join(r.choice("abc019=&.-_%/?:@!~") for _ in range(r.choice((0, 0, 1, 5, 12))))
    return p + ("?" + q if q else "")


def header(r):
    return casing(r.choice(NAMES), r) + ":" + r.choice(("", " ", "  ", "\t")) + r.choice(VALUES)


def good_head(r, t=None):
    t = t or r.choice("qqr")
    hs = [header(r) for _ in range(r.choice((0, 1, 2, 4, 9)))]
    k = r.randrange(6)
    if k == 0:
        hs.append(casing("Content-Length", r) + ": " + r.choice(("0", "1", "5", "00012", "4096", "2147483647", "2147483648", "4294967296", "99999999999")))
    elif k == 1:
        hs.append(casing("Transfer-Encoding", r) + ": " + r.choice(("chunked", "Chunked", "chunked")))
    if t == "q":
        hs.append(casing("Host", r) + ": " + r.choice(HOSTS))
        line = "%s %s HTTP/1.%d" % (r.choice(METHODS), target(r), r.random() < .9)
    else:
        line = "HTTP/1.%d %d %s" % (r.random() < .9, r.choice((100, 101, 199, 200, 204, 206, 301, 304, 400, 404, 500, 503, 599, 999, r.randrange(100, 1000))),
                                    r.choice(("OK", "Not Found", "", "x y z", "?")))
    r.shuffle(hs)
    if r.random() < .15:      # sizes around the limit
        want = r.choice((2040, 2043, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 2051, 2052, 2053, 2060, 4000))
        have = len("\r\n".join([line] + hs)) + 4 + len("\r\nX-Pad: ")
        if want > have:
            hs.insert(r.randrange(len(hs) + 1), "X-Pad: " + "p" * (want - have))
    b = "\r\n".join([line] + hs) + "\r\n\r\n"
    b = b.encode("latin1")
    k = r.random()
    if k < .5:
        b += bytes(r.randrange(256) for _ in range(r.choice((1, 2, 3, 5, 30))))
    elif k < .6:
        b += r.choice((b"\r\n", b"\n", b"\r", b"\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n"))
    return t, b


def bad_head(r):
    t, b = good_head(r)
    b = bytearray(b)
    k = r.randrange(10)
    e = max(4, b.find(b"\r\n\r\n"))
    if k == 0:
        b = b[:r.randrange(e + 4)]
    elif k in (1, 2):
        for _ in range(r.choice((1, 1, 2))):
            b[r.randrange(e)] = r.choice((0, 10, 13, 32, 58, 255, 9, 47, 65, r.randrange(256)))
    elif k == 3:
        i = r.randrange(e)
        del b[i:i + r.choice((1, 1, 2, 5))]
    elif k == 4:
        i = r.randrange(e)
        b[i:i] = r.choice((b" ", b"\r", b"\n", b"\r\n", b":", b"\0", b"\xff", b"\r\nnocolon", b"\r\n: v", b"\r\nContent-Length: x", b"\r\nContent-Length: -1"))
    elif k == 5:
        b = bytearray(r.choice((b"", b"\r\n\r\n", b"x\r\n\r\n", b"\r\n\r\nGET / HTTP/1.1\r\n\r\n", b"FLV\x01\x05\0\0\0\x09\r\n\r\n", b"\x16\x03\x01\x02\0\r\n\r\n",
                                b"get / HTTP/1.1\r\nHost: a\r\n\r\n", b"GET / HTTQ/1.1\r\nHost: a\r\n\r\n", b"GET\r\n\r\n", b"HTTP/1.1 xx OK\r\n\r\n", b"HTTP/1.1 200\r\n\r\n",
                                b"ICY 200 OK\r\n\r\n", b"GET / HTTP/1.1\r\nHost a\r\n\r\n", b"GET / HTTP/1.1\nHost: a\n\n", b"\0\0\0\0\r\n\r\n")))
    elif k == 6:
        b = bytearray(r.randrange(256) for _ in range(r.randrange(0, 40))) + b[e:]
    elif k == 7:
        t = "r" if t == "q" else "q"
    elif k == 8:
        b = bytearray(b"A" * r.choice((2047, 2048, 2049, 5000))) + b
    else:
        b = b.replace(b"\r\n", b"\n", r.choice((1, 2, 20)))
    return t, bytes(b)


def h01(ctx):
    q = ctx.quick
    lines = [("q", "GET /a.flv?x=1 HTTP/1.1"), ("q", "POST / HTTP/1.0"), ("q", "FOO / HTTP/1.1"), ("q", "get / HTTP/1.1"), ("q", "GET"), ("q", "GET /"),
             ("q", "GET / HTTQ/1.1"), ("q", ""), ("r", "HTTP/1.1 200 OK"), ("r", "HTTP/1.0 404 Not Found"), ("r", "HTTP/1.1 2x0 OK"), ("r", "GET / HTTP/1.1")]
    pool = ["Host: a.com", "host:b.c:8080", "Host: ", "X: y", "Content-Length: 12", "content-length: x", "Transfer-Encoding: chunked", "nocolon", ": v", " folded", "A b: c", "X:"]
    firsts = tlc.Raw("{%s}" % ", ".join('[req |-> %s, line |-> %s]' % ("TRUE" if t == "q" else "FALSE", tup(l)) for t, l in lines))
    c = dict(Firsts=firsts, Pool=tset(pool), Rests=tset(["", "x", "\r\n", "GET / HTTP/1.1\r\n\r\n"]), MaxHeaders=2 if q else 3)
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build.build, "drv_http", "san")
        f = ex.submit(tlc.run, "HttpHeadGen", tlc.cfg_text(c, spec="Spec", invariants=("Whole", "Never"), action_constraint="Emit"), workers=4)
        exe = fb.result()
        res = ctx.model("all small heads: rendering inverted, prefixes refused, following bytes ignored", f.result())
    tails = [b"", b"x", b"\r\n", b"GET / HTTP/1.1\r\n\r\n", b"\0" * 5]
    ins = []
    r = random.Random(rnd(ctx.seed, "h01"))
    for b in res.behaviours:
        ins.append({"t": "q" if b["req"] else "r", "in": (bytes(b["text"]) + r.choice(tails)).hex()})
    if not judged.recorded(ctx, exe, ins, "every head of the specification", "HttpTrace", ask_head, record_head, corrupt_head):
        return
    ins = []
    for gen, n in ((good_head, 1500), (bad_head, 2500)):
        for _ in range(n if q else 15 * n):
            t, b = gen(r)
            ins.append({"t": t, "in": b.hex()})
    if not judged.recorded(ctx, exe, ins, "generated and damaged heads", "HttpTrace", ask_head, record_head, corrupt_head):
        return
    # every truncation and byte change of two heads
    ins = []
    for t, b in (("q", b"GET /l/a.flv?k=v&b HTTP/1.1\r\nHost: a.com:81\r\nContent-Length: 3\r\n\r\nabc"), ("r", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nA: b\r\n\r\n3\r\n")):
        ins += [{"t": t, "in": b[:i].hex()} for i in range(len(b))]
        for i in range(len(b)):
            for v in ((0, 10, 13, 32, 58, b[i] ^ 32) if q else range(256)):
                ins.append({"t": t, "in": (b[:i] + bytes([v]) + b[i + 1:]).hex()})
    judged.recorded(ctx, exe, ins, "every truncation and byte change of two heads", "HttpTrace", ask_head, record_head)


# ------------------------------------------------------------------ bodies
def ask_body(d, x, r):
    b = bytes.fromhex(x["in"])
    cl = x["cl"] if x["mode"] == "cl" else -1
    return d.ask(["HB %s %d %d %s %s %s" % (w, cl, x["mode"] == "chunked", seg(b, r), r.choice(SIZES), b.hex() or "-") for w in "qrqr"])


def ask_large(d, x, r):
    cl = x["cl"] if x["mode"] == "cl" else -1
    return d.ask(["HB %s %d %d %s %s %s" % (w, cl, x["mode"] == "chunked", r.choice(("1000000", "1024,1", "65536")), r.choice(("1024", "65536", "4096,1,2", "200000")), x["in"]) for w in "qrqr"])


def record_body(x, ans):
    outs = []
    for a in ans:
        t = a.split(" ")
        if t[0] not in ("end", "eof", "error"):
            return "observed %s" % a[:300]
        outs.append({"v": t[0], "used": int(t[1]), "body": codes(t[2])})
    # of the four runs (request and response side, two splits each) the complete ones must agree; judge the one
    # most likely to be wrong: disagreements are reported here, the verdict itself is the specification's
    full = [o for o in outs if o["v"] == "end" or x["mode"] in ("close", "cl")]
    if full and any((o["v"] == "end", o["used"], o["body"]) != (full[0]["v"] == "end", full[0]["used"], full[0]["body"]) for o in outs):
        return "the same bytes de-frame differently: %s" % [a[:200] for a in ans]
    o = max(outs, key=lambda o: len(o["body"]))
    for p in outs:
        if o["body"][:len(p["body"])] != p["body"]:
            return "the same bytes de-frame differently: %s" % [a[:200] for a in ans]
    # (to the specification, all lengths far beyond what there is are the same)
    return {"k": "body", "mode": x["mode"], "cl": min(x["cl"], 2147483647), "in": list(bytes.fromhex(x["in"])), "out": o}


def corrupt_body(rec, r):
    o = rec["out"]
    if o["v"] == "error" or rec["mode"] != "chunked" and o["v"] == "eof":
        o["v"] = "end" if o["v"] == "error" else "error"
        if rec["mode"] == "close":
            return None if o["v"] == "eof" else rec
        return rec if rec["mode"] == "chunked" and rec["out"]["v"] == "end" else None
    if o["v"] == "eof":
        o["v"] = "end"
        return rec
    k = r.randrange(3)
    if k == 0:
        o["used"] += 1
    elif k == 1 and o["body"]:
        o["body"][-1] ^= 1
    else:
        o["body"].append(7)
    return rec


def chunked(r, big=False):
    out = b""
    for _ in range(r.choice((0, 1, 1, 2, 3, 6))):
        n = r.choice((1, 2, 3, 9, 10, 15, 16, 17, 31, 255, 256) + ((1023, 1024, 1025, 4096) if big else ()))
        d = bytes(r.choice((13, 10, 48, r.randrange(256))) for _ in range(n))
        line = "%x" % n
        if r.random() < .3:
            line = line.upper()
        if r.random() < .2:
            line = "0" * r.choice((1, 3, 8)) + line
        if r.random() < .15:
            line += r.choice((";a=b", ";x", ";"))
        out += line.encode() + b"\r\n" + d + b"\r\n"
    return out + b"0\r\n\r\n"


def body_case(r):
    tail = r.choice((b"", b"", b"x", b"GET / HTTP/1.1\r\n", b"\r\n", b"5\r\nhello\r\n0\r\n\r\n"))
    mode = r.choice(("chunked", "chunked", "chunked", "cl", "cl", "close"))
    if mode == "chunked":
        b = bytearray(chunked(r, r.random() < .1))
        k = r.random()
        if k < .35:
            pass
        elif k < .5:
            b = b[:r.randrange(len(b) + 1)]
            tail = b""
        elif k < .8:
            for _ in range(r.choice((1, 1, 2))):
                b[r.randrange(len(b))] = r.choice((0, 10, 13, 32, 45, 43, 48, 57, 120, 103, 255, r.randrange(256)))
        elif k < .9:
            i = r.randrange(len(b))
            b[i:i] = r.choice((b"-", b"+", b"0x", b" ", b"\r\n", b"z", b"\0", b"ffffffffffffffff", b"10000000000000000", b"-1"))
        else:
            i = r.randrange(len(b))
            del b[i:i + r.choice((1, 2))]
        return {"mode": mode, "cl": 0, "in": (bytes(b) + tail).hex()}
    n = r.choice((0, 0, 1, 2, 5, 20, 100, 1023, 1024, 1025, 3000))
    b = bytes(r.randrange(256) for _ in range(n))
    if mode == "close":
        return {"mode": mode, "cl": 0, "in": b.hex()}
    k = r.random()
    if k < .3 and n:
        return {"mode": mode, "cl": n, "in": b[:r.randrange(n)].hex()}
    if k < .4:
        return {"mode": mode, "cl": r.choice((2147483647, n + 1, 2147483648, 1 << 62, (1 << 32) + r.randrange(n + 2), (1 << 33) - 1)), "in": b.hex()}
    return {"mode": mode, "cl": n, "in": (b + tail).hex()}


def h02(ctx):
    q = ctx.quick
    c = dict(Sizes={1, 2, 10, 17} if q else {1, 2, 9, 10, 15, 16, 17, 31}, Exts=tset(["", ";a=b"]), Zeros={0, 2}, Rests=tset(["", "x", "\r\n", "0\r\n\r\n"]),
             MaxChunks=2 if q else 3)
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build.build, "drv_http", "san")
        f = ex.submit(tlc.run, "HttpBodyGen", tlc.cfg_text(c, spec="Spec", invariants=("Unframes", "Prefix"), action_constraint="Emit"), workers=4)
        exe = fb.result()
        res = ctx.model("all small chunked bodies: de-framing inverts framing, prefixes are errors", f.result())
    r = random.Random(rnd(ctx.seed, "h02"))
    ins = [{"mode": "chunked", "cl": 0, "in": (bytes(b["bytes"]) + r.choice((b"", b"x", b"\r\n", b"0\r\n\r\n"))).hex()} for b in res.behaviours]
    if not judged.recorded(ctx, exe, ins, "every chunked body of the specification", "HttpTrace", ask_body, record_body, corrupt_body):
        return
    ins = [body_case(r) for _ in range(3000 if q else 60000)]
    if not judged.recorded(ctx, exe, ins, "generated and damaged bodies", "HttpTrace", ask_body, record_body, corrupt_body):
        return
    ins = []
    for n in (65535, 65536, 70000) if q else (4095, 4096, 65535, 65536, 65537, 100000, 131072, 200001):
        d = r.randbytes(n)
        ins += [{"mode": "cl", "cl": n, "in": (d + b"xy").hex()}, {"mode": "chunked", "cl": 0, "in": (b"%x\r\n%s\r\n1\r\nx\r\n0\r\n\r\nxy" % (n, d)).hex()}]
    if not judged.recorded(ctx, exe, ins, "large bodies", "HttpTrace", ask_large, record_body, corrupt_body):
        return
    ins = []
    b = b"3\r\nabc\r\nA;x\r\n0123456789\r\n0\r\n\r\nGET"
    ins += [{"mode": "chunked", "cl": 0, "in": b[:i].hex()} for i in range(len(b))]
    for i in range(len(b)):
        for v in range(0, 256, 1 if not q else 5):
            ins.append({"mode": "chunked", "cl": 0, "in": (b[:i] + bytes([v]) + b[i + 1:]).hex()})
        for v in (13, 10, 45, 48, 59, 102, 120):
            ins.append({"mode": "chunked", "cl": 0, "in": (b[:i] + bytes([v]) + b[i + 1:]).hex()})
    for n in range(0, 12):
        for m in range(0, 14):
            ins.append({"mode": "cl", "cl": n, "in": (b"abcdefghijklmnop"[:m]).hex()})
    judged.recorded(ctx, exe, ins, "every truncation and byte change of a chunked body, every small length", "HttpTrace", ask_body, record_body)


# --------------------------------------------------------------- responses
def ask_resp(d, x, r):
    hs = ",".join("%s:%s" % (k.encode("latin1").hex() or "-", w.encode("latin1").hex() or "-") for k, w in x["headers"]) or "-"
    return d.ask(["HR %d %d %d %s %s" % (x["status"], x["cl"], x["chunked"], hs, " ".join((["H"] if x["explicit"] else []) + [w or "-" for w in x["writes"]]))])[0]


def record_resp(x, ans):
    try:
        out = codes(ans)
    except ValueError:
        return "observed %s" % ans[:200]
    m = {"status": x["status"], "cl": x["cl"], "chunked": x["chunked"], "explicit": x["explicit"],
         "headers": [{"k": list(k.encode("latin1")), "w": list(w.encode("latin1"))} for k, w in x["headers"]],
         "writes": [list(bytes.fromhex(w)) for w in x["writes"]]}
    return {"k": "resp", "m": m, "out": out}


def corrupt_resp(rec, r):
    o = rec["out"]
    if not o:
        return None
    k = r.randrange(3)
    if k == 0:
        o.pop()
    elif k == 1:
        o.append(88)
    else:
        i = bytes(o).find(b"\r\n")
        o[i + 2:i + 2] = list(b"Content-Length: 7\r\n")
    return rec


def resp_case(r):
    hs = []
    for _ in range(r.choice((0, 0, 1, 2, 5, 12))):
        k = r.choice(NAMES + ["Content-Type", "Server", "server", "Content-Length", "content-length", "Transfer-Encoding", "transfer-encoding", "CONTENT-LENGTH", "Set-Cookie", "Set-Cookie"])
        w = {"content-length": r.choice(("0", "5", "99")), "transfer-encoding": "chunked"}.get(k.lower(), r.choice(VALUES))
        hs.append((k, w))
    mode = r.choice(("chunked", "cl", "close"))
    ws = [bytes(r.randrange(256) for _ in range(r.choice((1, 2, 9, 15, 16, 17, 255, 256, 1024)))) for _ in range(r.choice((0, 1, 1, 2, 4)))]
    if mode == "chunked" and r.random() < .7:
        ws.append(b"")
    cl = sum(map(len, ws)) if mode == "cl" else -1
    return {"status": r.choice((200, 200, 206, 301, 400, 403, 404, 418, 500, 503, 599, 299, r.randrange(100, 600))), "cl": cl, "chunked": mode == "chunked",
            "headers": hs, "writes": [w.hex() for w in ws], "explicit": r.random() < .5 or not ws}


def h03(ctx):
    q = ctx.quick
    exe = build.build("drv_http", "san")
    r = random.Random(rnd(ctx.seed, "h03"))
    sel = [("a", "1"), ("Content-Length", "3"), ("content-length", "9"), ("Transfer-Encoding", "chunked"), ("TRANSFER-ENCODING", "chunked"), ("Server", "x"), ("server", "y"), ("A", "")]
    c = dict(Statuses={200, 404} if q else {200, 204, 404, 503, 999}, Pool=tlc.Raw("{%s}" % ", ".join("[k |-> %s, w |-> %s]" % (tup(k), tup(w)) for k, w in sel)),
             Writes=tset(["", "x", "abc", "0123456789abcdef"]), MaxHeaders=2, MaxWrites=2 if q else 3)
    res = ctx.model("all small responses: the reference rendering is valid, and no other framing is",
                    tlc.run("HttpRespGen", tlc.cfg_text(c, spec="Spec", invariants=("Sound", "Strict"), action_constraint="Emit"), workers=6))
    ins = []
    for b in res.behaviours:
        m = b["m"]
        ins.append({"status": m["status"], "cl": m["cl"], "chunked": m["chunked"], "explicit": m["explicit"],
                    "headers": [(bytes(h["k"]).decode("latin1"), bytes(h["w"]).decode("latin1")) for h in m["headers"]], "writes": [bytes(w).hex() for w in m["writes"]]})
    lim = 6000 if q else 60000
    if len(ins) > lim:
        ins = sorted(ins, key=lambda x: rnd(ctx.seed, str(x)))[:lim]
    if not judged.recorded(ctx, exe, ins, "every response of the specification", "HttpTrace", ask_resp, record_resp, corrupt_resp):
        return
    if not judged.recorded(ctx, exe, [resp_case(r) for _ in range(1500 if q else 30000)], "generated responses", "HttpTrace", ask_resp, record_resp, corrupt_resp):
        return
    ins = []
    for n in ((65535, 65536, 70000) if q else (4095, 4096, 65535, 65536, 65537, 100000, 131072, 200001)):
        for mode in ("chunked", "cl"):
            ws = [r.randbytes(n), r.randbytes(3)] + [b""] * (mode == "chunked")
            ins.append({"status": 200, "cl": n + 3 if mode == "cl" else -1, "chunked": mode == "chunked", "headers": [], "writes": [w.hex() for w in ws], "explicit": False})
    judged.recorded(ctx, exe, ins, "large writes", "HttpTrace", ask_resp, record_resp, corrupt_resp)


# -------------------------------------------------------------------- URLs
def ask_url(d, x, r):
    if "list" in x:
        if x["op"] == "look":
            return d.ask(["UL %s %s" % (x["url"].encode("latin1").hex(), " ".join(k.encode().hex() or "-" for k in x["keys"]))])[0]
        hs = ",".join("%s:%s" % (k.encode().hex() or "-", w.encode().hex() or "-") for k, w in x["list"]) or "-"
        return d.ask(["HL %s %s" % (hs, " ".join(k.encode().hex() or "-" for k in x["keys"]))])[0]
    return d.ask(["U " + (x["in"] or "-")])[0]


def record_url(x, ans):
    if "list" in x:
        if ans == "F":
            return "the URL was refused"
        return {"k": x["op"], "list": [{"k": list(k.encode()), "w": list(w.encode())} for k, w in x["list"]], "keys": [list(k.encode()) for k in x["keys"]],
                "out": [codes(t) for t in ans.split(" ")]}
    t = ans.split(" ")
    if t[0] == "F":
        out = {"v": "fail"}
    elif t[0] == "M":
        method, schema, host, port, path, params, url, ext, pp = t[1:]
        out = {"v": "url", "scheme": codes(schema), "host": codes(host), "port": int(port), "path": codes(path), "query": codes(params), "params": pairs(pp),
               "target": codes(url), "ext": codes(ext)}
    else:
        return "observed %s" % ans[:200]
    return {"k": "url", "in": list(bytes.fromhex(x["in"])), "out": out}


def corrupt_url(rec, r):
    if rec["k"] != "url":
        rec["out"][r.randrange(len(rec["out"]))].append(33)
        return rec
    o = rec["out"]
    if o["v"] == "fail":
        return None
    k = r.choice([k for k in o if k not in ("v", "ext", "params")])
    if k == "port":
        if bytes(o["scheme"]) not in (b"http", b"https", b"rtmp"):
            return None
        o[k] += 1
    else:
        o[k].append(65)
    return rec


def url_case(r):
    s = r.choice(("http", "https", "rtmp", "http", "srt", "udp", "ftp"))
    h = r.choice(("a.com", "h", "127.0.0.1", "Live-1.example.org", "a.b.c.d.e"))
    p = r.choice(("", "", ":80", ":1935", ":8080", ":1", ":65535", ":443"))
    path = "/" + "/".join("".join(r.choice("abcXY01._-~%+,;:@=&!$'()*") for _ in range(r.choice((0, 1, 2, 5, 9)))) for _ in range(r.choice((1, 1, 2, 3))))
    if r.random() < .4:
        path += r.choice((".flv", ".ts", ".", ".tar.gz", ".m3u8"))
    if r.random() < .08:
        path = ""
    q = ""
    if path and r.random() < .6:
        q = "?" + "&".join(r.choice(("a", "b", "key", "", "a.b", "x%20y", "k", "a;b", "k[0]", "x+y", "k:", "?", "p/q")) + r.choice(("=", "=", "=", "")) + r.choice(("", "1", "v=w", "a?b", "/x/y", "%26", "1.flv", "x;y=1", "a,b", "+1", "a:8@c", "(b!'$*)", "~-_", "%3D%3d", "//", "http://u.test:1/p", "z" * 300))
                           for _ in range(r.choice((1, 2, 3, 6))))
    u = "%s://%s%s%s%s" % (s, h, p, path, q)
    if r.random() < .1:
        u += "#" + r.choice(("f", "a=b", ""))
    b = bytearray(u.encode())
    if r.random() < .25:
        k = r.randrange(4)
        i = r.randrange(len(b))
        if k == 0:
            b[i] = r.choice((0, 9, 10, 32, 127, 200, 47, 58, 63, 64, 35, r.randrange(256)))
        elif k == 1:
            del b[i:i + r.choice((1, 2, 5))]
        elif k == 2:
            b[i:i] = r.choice((b":", b"/", b"?", b"//", b" ", b"\n", b":99999", b"@", b"[", b"]"))
        else:
            b = b[:i]
    return {"in": bytes(b).hex()}


def look_case(r):
    keys = ["a", "b", "key", "A", "x-y", "Host", "host", "c"]
    l = [(r.choice(keys), r.choice(("1", "", "v", "w/x", "0"))) for _ in range(r.randrange(0, 5))]
    ks = [r.choice(keys + ["nope"]) for _ in range(3)]
    if r.random() < .5:
        return {"op": "look", "list": l, "keys": ks, "url": "http://h/p" + ("?" + "&".join("%s=%s" % kw for kw in l) if l else "")}
    return {"op": "hlook", "list": l, "keys": ks}


def h06(ctx):
    q = ctx.quick
    c = dict(Schemes=tset(["http", "https", "rtmp", "1x", ""]), Hosts=tset(["a.com", "h", ""]), Ports=tset(["", ":1", ":8080", ":x", ":70000"]),
             Segs=tset(["", "a", "b.flv", ".", "x.y.z"] if q else ["", "a", "b.flv", ".", "x.y.z", "c=d&"]),
             Pieces=tset(["a=1", "b", "c=", "d=e;f=1", "a=2"] if q else ["a=1", "b", "c=", "d=e=f", "=g", "", "h;i=+,j"]), Frags=tset(["", "#f?g"]),
             MaxSegs=2, MaxPieces=2)
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build.build, "drv_http", "san")
        f = ex.submit(tlc.run, "UrlGen", tlc.cfg_text(c, spec="Spec", invariants=("Recovered",), action_constraint="Emit"), workers=6)
        exe = fb.result()
        res = ctx.model("all small URLs: the parts are recovered", f.result())
    r = random.Random(rnd(ctx.seed, "h06"))
    ins = [{"in": bytes(b["u"]).hex()} for b in res.behaviours]
    lim = 6000 if q else 100000
    if len(ins) > lim:
        ins = sorted(ins, key=lambda x: rnd(ctx.seed, str(x)))[:lim]
    if not judged.recorded(ctx, exe, ins, "every URL of the specification", "HttpTrace", ask_url, record_url, corrupt_url):
        return
    if not judged.recorded(ctx, exe, [url_case(r) for _ in range(3000 if q else 60000)], "generated and damaged URLs", "HttpTrace", ask_url, record_url, corrupt_url):
        return
    if not judged.recorded(ctx, exe, [look_case(r) for _ in range(600 if q else 10000)], "lookups", "HttpTrace", ask_url, record_url, corrupt_url):
        return
    ins = []
    for b in (b"http://a.com:81/l.x/a.flv?k=v&b=#f", b"rtmp://h/app/s"):
        ins += [{"in": b[:i].hex()} for i in range(len(b))]
        for i in range(len(b)):
            for v in ((0, 32, 47, 58, 59, 43, 37, 63, 35, 38, 61, 46, 64, 127, 200) if q else range(256)):
                ins.append({"in": (b[:i] + bytes([v]) + b[i + 1:]).hex()})
    judged.recorded(ctx, exe, ins, "every truncation and byte change of two URLs", "HttpTrace", ask_url, record_url)


HOW = {"H01": (ask_head, record_head), "H02": (ask_body, record_body), "H03": (ask_resp, record_resp), "H06": (ask_url, record_url)}


def replay(ctx, rec):
    exe = build.build("drv_http", "san")
    return judged.replay_one(ctx, exe, "HttpTrace", *HOW[ctx.prop], rec["input"])
