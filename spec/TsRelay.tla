------------------------------ MODULE TsRelay ------------------------------
(* A transport stream relayed packet by packet: who joins gets the latest     *)
(* program association, the latest program map and every packet since the     *)
(* most recent unit start, and from then on every packet.                     *)
EXTENDS Ts
NoPkt == <<>>
RStart == [ts |-> {Start}, pat |-> NoPkt, pmt |-> NoPkt, since |-> <<>>, begun |-> FALSE, q |-> <<>>, v |-> "ok"]
(* tables and announced streams, as far as they carry something *)
Relayed(st, b) == HasPay(b) /\ (Known(st, Pid(b)) \/ Pid(b) = 17)
One(S) == CHOOSE s \in S : TRUE
PutPkt(r, b) ==
  IF Cardinality(r.ts) # 1 THEN [r EXCEPT !.v = "any"]
  ELSE LET st == One(r.ts)
           \* only tables matter here, not what the streams carry
           n  == IF Index(st, Pid(b)) > 0 THEN {st} ELSE Step(st, b)
       IN IF Cardinality(n) # 1 \/ One(n).v = "any" \/ ~One(n).alive THEN [r EXCEPT !.v = "any"]
          ELSE IF ~Relayed(st, b) THEN [r EXCEPT !.ts = n]
          ELSE LET q2 == Now([k \in 1..Len(r.q) |-> [r.q[k] EXCEPT !.l = Append(@, b)]])
                   r2 == [r EXCEPT !.ts = n, !.q = q2]
               IN IF Pid(b) = 0 THEN [r2 EXCEPT !.pat = b]
                  ELSE IF Pid(b) \in st.pmts THEN [r2 EXCEPT !.pmt = b]
                  ELSE IF Index(st, Pid(b)) > 0 /\ Pusi(b) THEN [r2 EXCEPT !.since = <<b>>, !.begun = TRUE]
                  ELSE [r2 EXCEPT !.since = Append(@, b)]
Opt(b) == IF b = NoPkt THEN <<>> ELSE <<b>>
(* before the first unit start a joiner may or may not get what came before *)
Join(r) == [r EXCEPT !.q = Append(@, [l |-> Opt(r.pat) \o Opt(r.pmt) \o r.since,
                                      alt |-> ~r.begun, head |-> Opt(r.pat) \o Opt(r.pmt), n |-> Len(Opt(r.pat) \o Opt(r.pmt) \o r.since)])]
Drain(r, k, got) ==
  LET e == r.q[k]
      rest == From(e.l, e.n + 1)
      good == got = e.l \/ (e.alt /\ got = e.head \o rest)
  IN [r EXCEPT !.q[k] = [l |-> <<>>, alt |-> FALSE, head |-> <<>>, n |-> 0], !.v = IF good THEN r.v ELSE "bad"]
RStep(r, o) ==
  IF r.v # "ok" THEN r
  ELSE CASE o.op = "put" -> (IF o.err THEN (LET x == PutPkt(r, o.b) IN [x EXCEPT !.v = IF x.v = "any" THEN "any" ELSE "bad"]) ELSE PutPkt(r, o.b))
         [] o.op = "join" -> Join(r)
         [] OTHER -> Drain(r, o.c + 1, o.got)
Judge2(ops) == FoldLeft(RStep, RStart, ops).v
=============================================================================
