-------------------------------- MODULE TsGen --------------------------------
(* A multiplexer and those who join the relay.  One programme of one H.264    *)
(* and one AAC stream: tables, PES packets cut into pieces, packets that are  *)
(* lost, sent twice, carry nothing or belong to nobody.  What went into the   *)
(* multiplexer is what the demultiplexer delivers (Conserved).                *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS VAus, AAus, Cuts, Acts, MaxOps, MaxJoins
T == INSTANCE Ts
R == INSTANCE TsRelay
A == INSTANCE Annexb
D == INSTANCE Adts
Now(f) == FoldLeft(Append, <<>>, f)
Fill(n) == Now([k \in 1..n |-> 255])
Hi(n) == n \div 256
Lo(n) == n % 256
PmtPid == 256
Pids == <<257, 258>>
Types == <<27, 15>>
Sid == <<224, 192>>
Table(id, ext, body) ==
  LET n == 9 + Len(body)
      s == <<id, 176 + Hi(n), Lo(n), Hi(ext), Lo(ext), 193, 0, 0>> \o body
  IN s \o T!Crc(s)
PatSec == Table(0, 1, <<0, 1, 224 + Hi(PmtPid), Lo(PmtPid)>>)
PmtSec == Table(2, 1, <<225, 1, 240, 0, 27, 225, 1, 240, 0, 15, 225, 2, 240, 0>>)
Pad(n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<0>> ELSE <<n - 1, 0>> \o Fill(n - 2)
Pkt(pid, unit, cc, data) ==
  LET room == 184 - Len(data) IN
  <<71, (IF unit THEN 64 ELSE 0) + Hi(pid), Lo(pid), (IF room > 0 THEN 32 ELSE 0) + (IF data = <<>> THEN 0 ELSE 16) + cc>> \o Pad(room) \o data
TablePkt(pid, cc, sec) == Pkt(pid, TRUE, cc, <<0>> \o sec \o Fill(183 - Len(sec)))
Stamped(x) == <<33, 0, 2 * (x \div 32768) + 1, Hi((x % 32768) * 2), Lo((x % 32768) * 2) + 1>>
Pes(k, b, x, bounded) ==
  LET n == 3 + 5 + Len(b) IN
  <<0, 0, 1, Sid[k]>> \o (IF bounded THEN <<Hi(n), Lo(n)>> ELSE <<0, 0>>) \o <<128, 128, 5>> \o Stamped(x) \o b
\* ------------------------------------------------------------------- state
(* m: the multiplexer, per stream the next counter, what is left of the PES   *)
(* packet and the access unit on its way; s: specified demultiplexer; want:   *)
(* what should have come out; r: relay; ops: what was done                    *)
VARIABLES m, t, s, want, r, ops
vars == <<m, t, s, want, r, ops>>
View == <<m, s, want, r, Len(ops), IF ops = <<>> THEN <<>> ELSE <<ops[Len(ops)]>>>>
Idle == [au |-> <<>>, at |-> 0, ok |-> FALSE, sure |-> FALSE, over |-> FALSE]
Init == /\ m = [cc |-> <<0, 0>>, tcc |-> 0, rest |-> <<<<>>, <<>>>>, cur |-> <<Idle, Idle>>, tables |-> FALSE]
        /\ t = 0 /\ s = {T!Start} /\ want = [sv |-> A!None, sa |-> D!Nothing, video |-> <<>>, audio |-> <<>>]
        /\ r = R!RStart /\ ops = <<>>
Done == Len(ops) >= MaxOps
Put(b) == /\ s' = UNION {T!Step(x, b) : x \in s}
          /\ r' = R!PutPkt(r, b)
          /\ ops' = Append(ops, [op |-> "put", b |-> b])
Lost == /\ UNCHANGED <<s, r>> /\ ops' = Append(ops, [op |-> "lost", b |-> <<>>])
(* the access unit of stream k arrived *)
Arrived(w, k, c) ==
  IF ~c.ok THEN w
  ELSE IF k = 1 THEN LET x == A!Au(w.sv, c.au, T!Ms(<<0, c.at \div 32768, c.at % 32768>>), T!Ms(<<0, c.at \div 32768, c.at % 32768>>))
                     IN [w EXCEPT !.sv = x.st, !.video = @ \o x.out]
       ELSE LET f == D!Frames(c.au, 1).fs IN
            [w EXCEPT !.sa = D!After(w.sa, f), !.audio = Append(@, [st |-> w.sa, fs |-> f, d |-> T!Ms(<<0, c.at \div 32768, c.at % 32768>>)])]
Tables1 == /\ ~Done /\ "tables" \in Acts
           /\ LET c == m.tcc % 16
                  p1 == TablePkt(0, c, PatSec)
                  p2 == TablePkt(PmtPid, c, PmtSec)
              IN /\ s' = UNION {T!Step(x, p2) : x \in UNION {T!Step(y, p1) : y \in s}}
                 /\ r' = R!PutPkt(R!PutPkt(r, p1), p2)
                 /\ ops' = ops \o <<[op |-> "put", b |-> p1], [op |-> "put", b |-> p2]>>
           /\ m' = [m EXCEPT !.tcc = @ + 1, !.tables = TRUE]
           /\ UNCHANGED <<t, want>>
(* the first piece of a new PES packet, which ends the one before *)
Begin(k, u, cut, bounded, lost) ==
  /\ ~Done /\ m.tables /\ m.rest[k] = <<>>
  /\ LET p == Pes(k, u, t, bounded)
         n == IF cut < Len(p) THEN cut ELSE Len(p)
         c == m.cur[k]
     IN /\ m' = [m EXCEPT !.cc[k] = (@ + 1) % 16, !.rest[k] = SubSeq(p, n + 1, Len(p)),
                          !.cur[k] = IF lost THEN [c EXCEPT !.ok = c.ok /\ c.sure, !.over = TRUE] ELSE [au |-> u, at |-> t, ok |-> TRUE, sure |-> bounded, over |-> FALSE]]
        /\ IF lost THEN Lost /\ UNCHANGED want
           ELSE Put(Pkt(Pids[k], TRUE, m.cc[k], SubSeq(p, 1, n))) /\ want' = Arrived(want, k, c)
  /\ t' = t + 3600
(* when the start was lost, the pieces that follow belong to nothing: the one *)
(* before is handed over if it is known to be complete                        *)
More(k, cut, lost) ==
  /\ ~Done /\ m.rest[k] # <<>>
  /\ LET p == m.rest[k]
         n == IF cut < Len(p) THEN cut ELSE Len(p)
     IN /\ m' = [m EXCEPT !.cc[k] = (@ + 1) % 16, !.rest[k] = SubSeq(p, n + 1, Len(p)), !.cur[k].ok = @ /\ (~lost \/ m.cur[k].over)]
        /\ IF lost THEN Lost ELSE Put(Pkt(Pids[k], FALSE, m.cc[k], SubSeq(p, 1, n)))
  /\ UNCHANGED <<t, want>>
Other(k) ==
  /\ ~Done
  /\ \/ "null" \in Acts /\ k = 1 /\ Put(Pkt(8191, FALSE, 0, Fill(184)))
     \/ "stray" \in Acts /\ k = 1 /\ Put(Pkt(4660, TRUE, 3, Fill(100)))
     \/ "bare" \in Acts /\ m.cur[k].au # <<>> /\ Put(Pkt(Pids[k], FALSE, (m.cc[k] + 15) % 16, <<>>))
     \/ "twice" \in Acts /\ k = 1 /\ ops # <<>> /\ ops[Len(ops)].op = "put" /\ (ops[Len(ops)].b[4] \div 16) % 2 = 1
        /\ (IF Len(ops) = 1 THEN TRUE ELSE ops[Len(ops)] # ops[Len(ops) - 1]) /\ Put(ops[Len(ops)].b)
  /\ UNCHANGED <<m, t, want>>
Join == /\ "join" \in Acts /\ ~Done /\ Len(r.q) < MaxJoins
        /\ r' = R!Join(r) /\ ops' = Append(ops, [op |-> "join", b |-> <<>>]) /\ UNCHANGED <<m, t, s, want>>
Next == \/ Tables1 \/ Join
        \/ \E k \in 1..2, cut \in Cuts :
             \/ \E u \in (IF k = 1 THEN VAus ELSE AAus), bounded \in BOOLEAN, lost \in {FALSE} \cup (IF "lose" \in Acts THEN {TRUE} ELSE {}) : Begin(k, u, cut, bounded, lost)
             \/ More(k, cut, FALSE)
             \/ "lose" \in Acts /\ More(k, cut, TRUE)
        \/ \E k \in 1..2 : Other(k)
Spec == Init /\ [][Next]_vars
\* -------------------------------------------------------------------- laws
Alive == {x \in s : x.alive}
(* a demultiplexer that goes on after losses is in one state, and without losses nothing stops it *)
Certain == Cardinality(Alive) = 1 /\ ("lose" \notin Acts => s = Alive)
Clear == \A x \in s : x.v = "ok"
(* nothing comes out that did not go in, in order, and what arrived comes out *)
Prefix(a, b) == IsPrefix(a, b)
Conserved == \A x \in Alive :
   LET w1 == Arrived(Arrived(want, 1, m.cur[1]), 2, m.cur[2]) IN
   /\ Prefix(want.video, x.video) /\ Prefix(x.video, w1.video)
   /\ Prefix(want.audio, x.audio) /\ Prefix(x.audio, w1.audio)
(* who joins gets the tables and starts at a unit, with nothing missing after *)
Joined == \A k \in 1..Len(r.q) :
   LET q == r.q[k].l IN
   /\ Len(q) >= 2 => T!Pid(q[1]) = 0
   /\ r.v = "ok"
Flat(l) == FoldLeft(LAMBDA a, x : a \o D!Expect(x.st, x.fs, x.d), <<>>, l)
Emit == Len(ops') < MaxOps \/
   LET x == CHOOSE y \in s' : y.alive
       w == Arrived(Arrived(want', 1, m'.cur[1]), 2, m'.cur[2])
   IN PrintT("B:" \o ToJson([ops |-> ops', video |-> x.video, audio |-> Flat(x.audio), video2 |-> w.video, audio2 |-> Flat(w.audio),
                             q |-> Now([k \in 1..Len(r'.q) |-> r'.q[k]])]))
=============================================================================
