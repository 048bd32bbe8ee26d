----------------------------- MODULE CodecTrace -----------------------------
(* Recorded runs of the real H.264 and AAC parsers, one record a session of   *)
(* access units offered to one parser.                                        *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, Json, IOUtils
A == INSTANCE Annexb
D == INSTANCE Adts
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i

(* a time in base 1000, divided by the time base; none: 0 *)
Ms(t, base) == FoldLeft(LAMBDA a, x : LET y == a.r * 1000 + x IN [q |-> a.q * 1000 + y \div base, r |-> y % base], [q |-> 0, r |-> 0], t).q
Shown(out) == A!Now([j \in 1..Len(out) |-> IF out[j].c THEN [c |-> TRUE, f |-> out[j].f, b |-> out[j].b]
                                         ELSE [c |-> FALSE, f |-> out[j].f, d |-> out[j].d, p |-> out[j].p, b |-> out[j].b]])
Acc(v, st) == [v |-> v, st |-> st]
Video(r) ==
  FoldLeft(LAMBDA a, u :
    IF a.v # "ok" THEN a
    ELSE LET w == IF u.op = "raw" THEN (IF u.in = <<>> THEN [v |-> "any", st |-> a.st, out |-> <<>>] ELSE A!Deliver(a.st, <<u.in>>, Ms(u.d, u.tb), Ms(u.p, u.tb)))
                  ELSE A!Au(a.st, u.in, Ms(u.d, u.tb), Ms(u.p, u.tb))
         IN CASE w.v = "any" -> Acc("any", a.st)
              [] w.v = "fail" -> Acc(IF u.v = "fail" THEN "ok" ELSE "bad", a.st)
              [] OTHER -> Acc(IF u.v = "ok" /\ Shown(u.out) = w.out THEN "ok" ELSE "bad", w.st),
    Acc("ok", A!None), r.aus).v
Audio(r) ==
  FoldLeft(LAMBDA a, u :
    IF a.v # "ok" THEN a
    ELSE LET w == D!Frames(u.in, 1)
         IN CASE w.v = "any" -> Acc("any", a.st)
              [] w.v = "fail" -> Acc(IF u.v = "fail" THEN "ok" ELSE "bad", a.st)
              [] OTHER -> Acc(IF u.v = "ok" /\ (\A j \in 1..Len(u.out) : u.out[j].f = 175) /\ D!Same(a.st, w.fs, 1, u.out, 1, Ms(u.d, u.tb)) THEN "ok" ELSE "bad",
                              D!After(a.st, w.fs)),
    Acc("ok", D!Nothing), r.aus).v
Verdict(r) == IF r.k = "h264" THEN Video(r) ELSE Audio(r)
Conforms == i > Len(Recs) \/ LET v == Verdict(Recs[i]) IN
              IF v = "ok" THEN TRUE ELSE PrintT("L:" \o v \o " " \o ToString(i))
=============================================================================
