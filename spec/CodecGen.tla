------------------------------ MODULE CodecGen ------------------------------
(* Sessions of access units built from an alphabet of NAL units (Kind "h264") *)
(* or ADTS frames (Kind "aac"); the packets the specification expects are     *)
(* carried along for the real parsers.                                        *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Kind, Alphabet, Gaps, Tails, MaxUnits, MaxAus
A == INSTANCE Annexb
D == INSTANCE Adts
VARIABLES st, bytes, us, hist, conf
vars == <<st, bytes, us, hist, conf>>
View == <<st, bytes, us, Len(hist), conf, IF hist = <<>> THEN <<>> ELSE <<hist[Len(hist)]>>>>
Init == st = (IF Kind = "h264" THEN A!None ELSE D!Nothing) /\ bytes = <<>> /\ us = <<>> /\ hist = <<>> /\ conf = <<>>
(* another unit into the current access unit *)
Add(u, g) == /\ Len(us) < MaxUnits /\ Len(hist) < MaxAus
             /\ us' = Append(us, u)
             /\ bytes' = bytes \o g \o u
             /\ UNCHANGED <<st, hist, conf>>
T(k) == 40 * k            \* ms
Flush(tail) ==
  /\ us # <<>> /\ Len(hist) < MaxAus
  /\ LET n == Len(hist)
         w == IF Kind = "h264" THEN A!Au(st, bytes \o tail, T(n), T(n) + 40)
              ELSE LET f == D!Frames(bytes \o tail, 1) IN
                   IF f.v = "ok" THEN [v |-> "ok", st |-> D!After(st, f.fs), out |-> D!Expect(st, f.fs, T(n))]
                   ELSE [v |-> f.v, st |-> st, out |-> <<>>]
     IN /\ w.v # "any"
        /\ st' = w.st
        /\ hist' = Append(hist, [in |-> bytes \o tail, v |-> w.v, out |-> w.out])
        /\ conf' = FoldLeft(LAMBDA c, p : IF p.c THEN p.b ELSE c, conf, w.out)
  /\ bytes' = <<>> /\ us' = <<>>
Next == (\E u \in Alphabet, g \in Gaps : Add(u, g)) \/ \E t \in Tails : Flush(t)
Spec == Init /\ [][Next]_vars

(* the units are recovered from the bytes, whatever zero bytes lie between *)
Recovered == Kind = "h264" /\ us # <<>> => A!Units(bytes, A!Starts(bytes)) = us
(* what a receiver was last told is what is in use *)
Current == IF Kind = "h264" THEN (A!Complete(st) => conf = A!Record(st)) ELSE (st.key # <<>> => conf = D!Asc(st.key))
Now2(f) == FoldLeft(Append, <<>>, f)
(* frames are conserved: per access unit, what is delivered is what came in *)
Fine(h) == h.v = "ok" =>
   LET fr == SelectSeq(h.out, LAMBDA p : ~p.c) IN
   IF Kind = "h264" THEN Now2([k \in 1..Len(fr) |-> SubSeq(fr[k].b, 5, Len(fr[k].b))]) = SelectSeq(A!Units(h.in, A!Starts(h.in)), LAMBDA u : A!Type(u) \in {1, 5, 6})
   ELSE FoldLeft(LAMBDA a, p : a + Len(p.b), 0, fr) < Len(h.in) /\ (\A k \in 2..Len(fr) : fr[k].d >= fr[k - 1].d)
(* at most one configuration, and nothing before it, per H.264 access unit *)
Ahead(h) == Kind = "h264" => \A k \in 2..Len(h.out) : ~h.out[k].c
Laws == hist # <<>> => Fine(hist[Len(hist)]) /\ Ahead(hist[Len(hist)])

Emit == Len(hist') = Len(hist) \/ Len(hist') # MaxAus \/ PrintT("B:" \o ToJson([kind |-> Kind, h |-> hist']))
EmitAll == Len(hist') = Len(hist) \/ PrintT("B:" \o ToJson([kind |-> Kind, h |-> hist']))
=============================================================================
