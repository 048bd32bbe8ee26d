----------------------------- MODULE ConfTrace -----------------------------
(* Loads of the real configuration loader judged by Conf.tla: r.in is the    *)
(* text (bytes), r.out what was loaded.                                      *)
EXTENDS Conf, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
(* the dumped tree in the shape of Effective (a server lists all its hosts) *)
Names(t) == {q.n : q \in Options[t]}
RECURSIVE Seen(_)
Seen(d) == IF d.t \notin Types THEN [t |-> d.t]
           ELSE LET s == Now([j \in 1..Len(d.s) |-> Seen(d.s[j])])
                IN [t |-> d.t, n |-> d.n, o |-> {<<d.o[j][1], d.o[j][2]>> : j \in {j \in 1..Len(d.o) : d.o[j][1] \in Names(d.t)}},
                    s |-> IF d.t = "server" THEN Bag(s) ELSE IF d.t \in {"root", "host"} THEN ByType(s) ELSE s]
Verdict(r) == LET p == Load(r.in)
              IN IF p.v = "any" THEN "any"
                 ELSE IF p.v = "fail" THEN (IF r.out.v = "fail" THEN "ok" ELSE "bad")
                 ELSE IF r.out.v = "ok" THEN (IF Seen(r.out.root) = Effective(p.root) THEN "ok" ELSE "bad") ELSE "bad"
Conforms == i > Len(Recs) \/ LET v == Verdict(Recs[i]) IN
              IF v = "ok" THEN TRUE ELSE PrintT("L:" \o v \o " " \o ToString(i))
=============================================================================
