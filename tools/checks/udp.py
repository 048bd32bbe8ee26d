"""N01: behaviours of Udp.tla and UdpClient.tla performed on the real sockets."""
import concurrent.futures as cf
import struct

import build
import tlc
from checks.io import Unit, UnitFactory, replay_unit
from common import rnd

# peer: its socket, and the server's address that it sends to
PEER = {1: ("A", "127.0.0.1"), 2: ("B", "127.0.0.1"), 3: ("C", "127.0.0.1"), 4: ("A", "127.0.0.3")}
SIZES = (0, 1, 2, 3, 17, 188, 500, 1316, 1400, 1472, 4095, 4096)


def blob(r, n):
    return bytes(r.getrandbits(8) for _ in range(n))


class ServerRunner(Unit):
    def datagram(self, r, i):
        return blob(r, r.choice(SIZES) if r.random() < .5 else r.randrange(1, 1500))

    def plan(self, case, r):
        plan = [("server", "ok"), ("reset", "ok")]
        data, name, aw = {}, {}, False
        pending = set()
        for o in case["h"]:
            a = o["a"]
            s = "s%s" % o.get("s", "")
            if a == "send":
                d = data[o["id"]] = self.datagram(r, o["id"])
                plan.append(("send %s %s %s" % (*PEER[o["p"]], d.hex() or "-"), "ok"))
            elif a == "run":
                plan.append(("run", "ok"))
                for t in o["acc"]:
                    plan.append(("res *", self.accepted(self.at(o["peer"], t))))
                    plan.append(("name * s%d" % t, "ok"))
                    aw = False
                if aw:
                    plan.append(("res *", "pending"))
                got = {int(k): v for k, v in o["got"].items()} if isinstance(o["got"], dict) else {i + 1: v for i, v in enumerate(o["got"])}
                for t in sorted(pending):
                    plan.append(("res s%d" % t, data[got[t]].hex() or "-" if t in got else "pending"))
                pending -= set(got)
            elif a == "accept":
                plan.append(("acc " + s, self.accepted(o["p"])))
            elif a == "acceptwait":
                aw = True
                plan += [("accw *", "ok"), ("res *", "pending")]
            elif a in ("read", "small"):
                d = data[o["id"]]
                if a == "small":
                    if d:
                        plan.append(("rd %s %d" % (s, r.choice((len(d) - 1, len(d) // 2))), "small"))
                else:
                    plan.append(("rd %s %d" % (s, len(d) + r.choice((0, 1, 4096))), d.hex() or "-"))
            elif a == "readwait":
                pending.add(o["s"])
                plan += [("rdw %s 4096 %d" % (s, 1000 if o["w"] == "second" else -1), "ok"), ("res " + s, "pending")]
            elif a == "tick":
                if r.random() < .5 and o["late"]:
                    plan.append(("adv 999", "ok"))
                    plan += [("res s%d" % t, "pending") for t in sorted(pending)]
                    plan.append(("adv 1", "ok"))
                else:
                    plan.append(("adv 1000", "ok"))
                plan += [("res s%d" % t, "late" if t in o["late"] else "pending") for t in sorted(pending)]
                pending -= set(o["late"])
            elif a == "write":
                d = blob(r, r.choice((1, 2, 188, 1316, 1400, 4096, 9000)))
                plan += [("w %s %s" % (s, d.hex()), "ok"), ("in", "%s<server %s;" % (PEER[o["p"]][0], d.hex()))]
            elif a == "close":
                plan.append(("close " + s, "ok"))
            elif a == "flood":
                for i in range(o["k"]):
                    data[o["from"] + i] = struct.pack(">I", o["from"] + i)
                plan.append(("flood %s %s %d %d" % (*PEER[o["p"]], o["from"], o["k"]), "ok"))
            elif a == "many":
                runs = []
                for i in o["ids"]:
                    if runs and runs[-1][1] == i - 1:
                        runs[-1][1] = i
                    else:
                        runs.append([i, i])
                plan.append(("many %s %d" % (s, len(o["ids"])), "got" + "".join(" %d-%d" % tuple(x) for x in runs)))
        plan.append(("in", "nothing"))
        return plan

    def accepted(self, p):
        return "%s %s port" % PEER[p]

    @staticmethod
    def at(m, t):
        return m[str(t)] if isinstance(m, dict) else m[t - 1]


class FloodRunner(ServerRunner):
    """a datagram holds its number"""
    def datagram(self, r, i):
        return struct.pack(">I", i)


class ClientRunner(Unit):
    def plan(self, case, r):
        plan = [("reset", "ok")]
        data, pending, n = {}, {}, 0
        T = " XYZ"
        for o in case["h"]:
            a, c = o["a"], o.get("c")
            if a == "new":
                n += 1
                plan.append(("cnew %d %s %d" % (n, T[o["t"]], o["con"]), "ok"))
            elif a == "write":
                d = blob(r, r.choice((1, 2, 188, 1316, 1400, 4096, 9000)))
                plan += [("cw %d %s" % (c, d.hex()), "ok"), ("in", "%s<client%d %s;" % (T[o["t"]], c, d.hex()))]
            elif a == "reply":
                d = data[o["id"]] = blob(r, r.choice((1, 2, 188, 1400, 4096, 9000)))
                plan.append(("reply %s %d %s" % (T[o["t"]], c, d.hex()), "ok"))
                if c in pending:
                    plan.append(("res c%d" % c, d.hex() if o["done"] else "pending"))
                    if o["done"]:
                        del pending[c]
            elif a == "read":
                d = data[o["id"]]
                f = r.random() < .5
                plan.append(("crd %d %d %s" % (c, len(d) + r.choice((0, 1, 900)), "from" if f else "-"), d.hex() + (" " + T[o["t"]] if f else "")))
            elif a == "readwait":
                pending[c] = 1
                plan += [("crdw %d 9000 %d" % (c, 1000 if o["w"] == "second" else -1), "ok"), ("res c%d" % c, "pending")]
            elif a == "tick":
                plan.append(("adv 1000", "ok"))
                plan += [("res c%d" % t, "late" if t in o["late"] else "pending") for t in sorted(pending)]
                for t in o["late"]:
                    del pending[t]
        plan.append(("in", "nothing"))
        return plan


def runs(q):
    P, nof, ever = {1, 2, 3, 4}, set(), {"ever", "second"}
    no = dict(Peers=P, MaxSess=4, MaxSend=4, MaxHist=40, Cap=4000, Floods=nof, Waits=ever)
    inv = ("InOrder", "Apart", "OneEach", "Current", "Known", "Queued", "Bounded", "Waiting")
    # name, module, runner, constants, invariants, view, simulate, depth
    return [
        ("two peers", "Udp", ServerRunner, dict(no, Peers={1, 3}, MaxSess=2 if q else 3, MaxSend=2 if q else 3, MaxHist=12 if q else 14), inv, "View", None),
        ("one port, two addresses of the server", "Udp", ServerRunner, dict(no, Peers={1, 4}, MaxSess=2 if q else 3, MaxSend=2 if q else 3, MaxHist=12, Waits={"ever"}), inv, "View", None),
        ("long histories", "Udp", ServerRunner, dict(no, MaxSess=24, MaxSend=24, MaxHist=40), ("Bounded", "Queued", "Current"), None, 300 if q else 6000),
        ("a full queue", "Udp", FloodRunner, dict(no, Peers={1, 2}, MaxSess=9, MaxSend=6000, MaxHist=9, Floods={1, 3000, 3999, 4000}, Waits={"ever"}), ("Bounded",), None, 60 if q else 1500),
        ("a queue filled and emptied", "Udp", FloodRunner, dict(no, Peers={1}, MaxSess=3, MaxSend=12002, MaxHist=7, Floods={1, 3999, 4000}, Waits=nof), ("Bounded", "InOrder"), "View", None),
        ("clients, short", "UdpClient", ClientRunner, dict(Targets={1, 2, 3}, MaxC=2, MaxSend=4, MaxHist=4 if q else 5), ("OwnOnly",), None, None),
        ("clients, long", "UdpClient", ClientRunner, dict(Targets={1, 2, 3}, MaxC=3, MaxSend=12, MaxHist=20), ("OwnOnly",), None, 500 if q else 5000),
    ]


def n01(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build.build, "drv_udp", "san")
        fs = []
        for name, mod, cls, c, inv, view, sim in runs(q):
            cfg = tlc.cfg_text(c, spec="Spec", view=view, invariants=inv, action_constraint="EmitEnd" if sim else "Emit")
            fs.append((name, cls, sim, ex.submit(tlc.run, mod, cfg, simulate=sim, depth=c["MaxHist"] + 1, seed=ctx.seed)))
        exe = fb.result()
        for name, cls, sim, f in fs:
            r = ctx.model(name, f.result())
            b = tlc.thin(r.behaviours) if sim else tlc.prune_prefixes(r.behaviours)
            lim = 6000 if q else 100000
            cases = [dict(h=x) for x in b]
            if len(cases) > lim:
                cases = sorted(cases, key=lambda x: rnd(ctx.seed, str(x)))[:lim]
            if not ctx.replay(name, cases, UnitFactory(cls, exe, ctx.seed)):
                return


def replay(ctx, rec):
    cls = {n: c for n, _, c, *_ in runs(True)}[rec["stage"]]
    return replay_unit(ctx, rec, cls, build.build("drv_udp", "san"))
