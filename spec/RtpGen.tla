-------------------------------- MODULE RtpGen --------------------------------
(* A sender of H.264 over RTP: single units, aggregates of every kind,        *)
(* fragments, reports in between, datagrams that get lost or are damaged on   *)
(* the way.  What is delivered is exactly the units all of whose datagrams    *)
(* arrived (Conserved).                                                       *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Nals, Kinds, Acts, First, MaxOps, Dress
R == INSTANCE Rtp
A == INSTANCE Annexb
Now(f) == FoldLeft(Append, <<>>, f)
Hi(n) == n \div 256
Lo(n) == n % 256
(* s: what the specified receiver may be in; want: parameter sets and units   *)
(* as a receiver ought to have them; cur: the unit being sent in fragments    *)
VARIABLES seq, s, want, cur, ops, out
vars == <<seq, s, want, cur, ops, out>>
View == <<seq, s, want, cur, Len(ops), IF ops = <<>> THEN <<>> ELSE <<ops[Len(ops)]>>, out>>
None == [u |-> <<>>, at |-> 0, ok |-> FALSE]
Init == seq = First /\ s = {R!Start} /\ want = [sv |-> A!None, out |-> <<>>] /\ cur = None /\ ops = <<>> /\ out = <<>>
Ts == <<0, 3600>>
(* how the datagram is dressed: plain, with contributing sources, an          *)
(* extension, padding *)
Datagram(d, pay, mark) ==
  LET h(f) == <<128 + f, mark * 128 + 96, Hi(seq), Lo(seq), 0, 0, 14, 16, 1, 2, 3, 4>> IN
  CASE d = "plain" -> h(0) \o pay
    [] d = "csrc" -> h(2) \o <<9, 9, 9, 9, 8, 8, 8, 8>> \o pay
    [] d = "ext" -> h(16) \o <<190, 222, 0, 1, 5, 6, 7, 8>> \o pay
    [] d = "pad" -> h(32) \o pay \o <<0, 0, 3>>
    [] OTHER -> h(49) \o <<9, 9, 9, 9, 1, 2, 0, 0>> \o pay \o <<1>>
Unit(w, u, t) == LET x == A!Deliver(w.sv, <<u>>, 0, R!Ms(t)) IN [sv |-> x.st, out |-> w.out \o x.out]
Units(w, us) == FoldLeft(LAMBDA a, e : Unit(a, e.u, e.t), w, us)
(* datagram b arrives, or not *)
Send(b, lost, w) ==
  /\ seq' = (seq + 1) % 65536
  /\ IF lost THEN UNCHANGED <<s, want, out>> /\ ops' = Append(ops, <<>>)
     ELSE /\ LET n == UNION {R!Step("h264", x, b) : x \in s} IN s' = {x.st : x \in n} /\ out' = Append(out, {x.out : x \in n})
          /\ want' = w /\ ops' = Append(ops, b)
Lost == {FALSE} \cup (IF "lose" \in Acts THEN {TRUE} ELSE {})
Go == Len(ops) < MaxOps
Single == /\ Go /\ cur = None /\ \E u \in Nals, lost \in Lost, d \in Dress : Send(Datagram(d, u, 1), lost, Unit(want, u, Ts))
          /\ UNCHANGED cur
Size(u) == <<Hi(Len(u)), Lo(Len(u))>>
(* aggregates of one or two units; the second one of an MTAP is 40 ms later *)
Pack(k, us) ==
  CASE k = 24 -> [p |-> <<120>> \o FoldLeft(LAMBDA a, u : a \o Size(u) \o u, <<>>, us), us |-> Now([i \in 1..Len(us) |-> [u |-> us[i], t |-> Ts]])]
    [] k = 25 -> [p |-> <<121, 0, 7>> \o FoldLeft(LAMBDA a, u : a \o Size(u) \o u, <<>>, us), us |-> Now([i \in 1..Len(us) |-> [u |-> us[i], t |-> Ts]])]
    [] OTHER -> LET off(i) == (IF k = 27 THEN <<0>> ELSE <<>>) \o (IF i = 1 THEN <<0, 0>> ELSE <<14, 16>>) IN
                [p |-> <<96 + k, 0, 7>> \o FoldLeft(LAMBDA a, i : a \o Size(us[i]) \o <<i>> \o off(i) \o us[i], <<>>, Now([i \in 1..Len(us) |-> i])),
                 us |-> Now([i \in 1..Len(us) |-> [u |-> us[i], t |-> IF i = 1 THEN Ts ELSE <<0, 7200>>]])]
Aggregate == /\ Go /\ cur = None
             /\ \E k \in Kinds, us \in {<<a>> : a \in Nals} \cup {<<a, b>> : a \in Nals, b \in Nals}, lost \in Lost, d \in Dress :
                  LET x == Pack(k, us) IN Send(Datagram(d, x.p, 0), lost, Units(want, x.us))
             /\ UNCHANGED cur
Frag(u, s0, e, part) == <<32 * (u[1] \div 32) + 28, (IF s0 THEN 128 ELSE 0) + (IF e THEN 64 ELSE 0) + (u[1] % 32)>> \o part
FuFirst == /\ Go /\ cur = None /\ "fu" \in Acts
           /\ \E u \in {x \in Nals : Len(x) > 2}, lost \in Lost, d \in Dress :
                LET n == IF Len(u) > 4 THEN 3 ELSE 2 IN
                /\ Send(Datagram(d, Frag(u, TRUE, FALSE, SubSeq(u, 2, n)), 0), lost, want)
                /\ cur' = [u |-> u, at |-> n, ok |-> ~lost]
FuNext == /\ Go /\ cur # None
          /\ \E lost \in Lost, d \in Dress, n \in {cur.at + 1, Len(cur.u)} :
               LET e == n = Len(cur.u)
                   p == SubSeq(cur.u, cur.at + 1, n)
               IN /\ Send(Datagram(d, Frag(cur.u, FALSE, e, p), IF e THEN 1 ELSE 0), lost, IF e /\ cur.ok THEN Unit(want, cur.u, Ts) ELSE want)
                  /\ cur' = IF e THEN None ELSE [cur EXCEPT !.at = n, !.ok = @ /\ ~lost]
(* the sender gives up a unit *)
Abort == "abort" \in Acts /\ cur # None /\ cur' = None /\ UNCHANGED <<seq, s, want, ops, out>>
Other(b) == /\ LET n == UNION {R!Step("h264", x, b) : x \in s} IN s' = {x.st : x \in n} /\ out' = Append(out, {x.out : x \in n})
            /\ ops' = Append(ops, b) /\ UNCHANGED <<seq, want, cur>>
Report == Go /\ "rtcp" \in Acts /\ Other(<<129, 201, 0, 7>> \o Now([i \in 1..28 |-> i]) \o <<129, 203, 0, 1, 1, 2, 3, 4>>)
Junk == Go /\ "junk" \in Acts /\ \E b \in {<<128>>, <<128, 96, 0, 1, 0, 0, 0, 0, 1, 2, 3>>, <<0, 96>> \o Now([i \in 1..20 |-> 65]),
                                           <<128, 34>> \o Now([i \in 1..20 |-> 65]), <<160, 96>> \o Now([i \in 1..14 |-> 255])} : Other(b)
Next == Single \/ Aggregate \/ FuFirst \/ FuNext \/ Abort \/ Report \/ Junk
Spec == Init /\ [][Next]_vars
\* -------------------------------------------------------------------- laws
Sure == Cardinality(s) = 1 /\ \A x \in s : x.v = "ok"
Flat(o) == FoldLeft(LAMBDA a, x : a \o (CHOOSE y \in x : TRUE), <<>>, o)
Conserved == (\A k \in 1..Len(out) : Cardinality(out[k]) = 1) /\ Flat(out) = want.out
Emit == Len(ops') = Len(ops) \/ Len(ops') < MaxOps \/ PrintT("B:" \o ToJson([ops |-> ops', out |-> want'.out]))
=============================================================================
