------------------------------- MODULE Bytes -------------------------------
(* The buffered byte reader over a segmented source.  The abstract state is   *)
(* how much has been consumed (pos) and how many bytes have been granted by a *)
(* successful acquire.  off/have follow the reference implementation's buffer *)
(* so that the search distinguishes its wrap-around states (they are in the   *)
(* view, never in an expectation).                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Total,   \* bytes in the source
          Caps,    \* buffer sizes
          Rewinds, \* subset of BOOLEAN
          Segs,    \* sequences of segment lengths, used cyclically
          Sizes,   \* sizes asked for
          MaxHist
VARIABLES cfg, pos, grant, off, have, si, in, hist
vars == <<cfg, pos, grant, off, have, si, in, hist>>
View == <<cfg, pos, grant, off, have>>
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ cfg \in [cap : Caps, rew : Rewinds, seg : Segs]
        /\ pos = 0 /\ grant = 0 /\ off = 0 /\ have = 0 /\ si = 0 /\ in = 0 /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Rest == Total - pos       \* not yet consumed

(* the source: how much a read of at most n gives, from the segment state *)
RECURSIVE Fill(_, _, _, _, _, _)
Fill(need, h, o, got, s, i) ==     \* -> <<have, si, in>>
  IF h >= need \/ pos + h >= Total THEN <<h, s, i>>
  ELSE LET seg == cfg.seg[(s % Len(cfg.seg)) + 1]
           n   == Min(Min(cfg.cap - (o + h), seg - i), Total - (pos + h))
       IN  Fill(need, h + n, o, got + n, IF i + n >= seg THEN s + 1 ELSE s, IF i + n >= seg THEN 0 ELSE i + n)

Acquire(n) ==
  LET full == IF cfg.rew THEN n > cfg.cap ELSE pos + n > cfg.cap
      eof  == n > Rest
      ok   == ~full /\ ~eof
      o2   == IF have < n /\ cfg.cap - off < n THEN 0 ELSE off
      f    == Fill(n, have, o2, 0, si, in)
  IN  /\ Log([a |-> "Acquire", n |-> n, ok |-> ok])
      /\ grant' = IF ok /\ n > grant THEN n ELSE grant
      /\ IF full \/ have >= n THEN UNCHANGED <<off, have, si, in>>
         ELSE off' = o2 /\ have' = f[1] /\ si' = f[2] /\ in' = f[3]
      /\ UNCHANGED <<cfg, pos>>

Take(op, n) ==
  /\ n <= grant
  /\ Log([a |-> op, n |-> n, from |-> pos])
  /\ pos' = pos + n /\ grant' = grant - n /\ off' = off + n /\ have' = have - n
  /\ UNCHANGED <<cfg, si, in>>

Peek(n) == /\ n <= grant /\ n > 0
           /\ Log([a |-> "Peek", n |-> n, from |-> pos])
           /\ UNCHANGED <<cfg, pos, grant, off, have, si, in>>

Next == /\ Len(hist) < MaxHist
        /\ \/ \E n \in Sizes : Acquire(n)
           \/ \E n \in Sizes : Take("Bytes", n) \/ Take("Skip", n) \/ Take("Reverse", n) \/ Peek(n)
           \/ \E n \in 1..4 : Take("Int", n)
Spec == Init /\ [][Next]_vars

Conserved == pos + grant <= Total /\ grant <= have /\ off + have <= cfg.cap
Emit == PrintT("B:" \o ToJson([cfg |-> cfg, h |-> hist']))
EmitEnd == Len(hist') # MaxHist \/ PrintT("B:" \o ToJson([cfg |-> cfg, h |-> hist']))
=============================================================================
