-------------------------------- MODULE Udp --------------------------------
(* UDP: a server that keeps one session per peer, and clients.               *)
(* A peer is a sender's address and port together with the server's address  *)
(* it sends to.  Datagrams are numbered; what a datagram holds is the        *)
(* runner's choice.  The network hands a server its datagrams in the order   *)
(* they were sent, when the server runs.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Peers, MaxSess, MaxSend, MaxHist, Cap, Floods, Waits
VARIABLES net, n, cur, own, st, q, rd, news, aw, hist
vars == <<net, n, cur, own, st, q, rd, news, aw, hist>>
View == <<net, n, cur, own, st, q, rd, news, aw>>
S == 1..MaxSess       \* at least as many as datagrams sent one by one
None == 0

Init == /\ net = <<>> /\ n = 0 /\ cur = [p \in Peers |-> None]
        /\ own = <<>>                       \* the peer of each session, in order of creation
        /\ st = [s \in S |-> "none"] /\ q = [s \in S |-> <<>>]
        /\ rd = [s \in S |-> "idle"]        \* idle, or how long a read waits: "ever", "second"
        /\ news = <<>> /\ aw = FALSE /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Rest(s) == SubSeq(s, 2, Len(s))

(* the peers *)
Send(p) == /\ n < MaxSend /\ Len(own) + Cardinality({net[i].p : i \in 1..Len(net)} \cup {p}) <= MaxSess
           /\ n' = n + 1 /\ net' = Append(net, [p |-> p, id |-> n + 1])
           /\ Log([a |-> "send", p |-> p, id |-> n + 1])
           /\ UNCHANGED <<cur, own, st, q, rd, news, aw>>

(* the server takes a datagram: it belongs to the peer's session, the one    *)
(* there is or a new one; a session holds at most Cap datagrams not yet read *)
Take(w, d) == IF w.cur[d.p] # None
              THEN IF Len(w.q[w.cur[d.p]]) >= Cap THEN w ELSE [w EXCEPT !.q[w.cur[d.p]] = Append(@, d.id)]
              ELSE LET s == Len(w.own) + 1 IN
                   [w EXCEPT !.cur[d.p] = s, !.own = Append(@, d.p), !.st[s] = "new", !.q[s] = <<d.id>>, !.news = Append(@, s)]
World == [cur |-> cur, own |-> own, st |-> st, q |-> q, news |-> news]
Run == /\ net # <<>>
       /\ LET w == FoldLeft(Take, World, net)
              acc == aw /\ w.news # <<>>
              a == IF acc THEN {w.news[1]} ELSE {}
              got == {s \in S : rd[s] # "idle" /\ w.q[s] # <<>>}
          IN /\ cur' = w.cur /\ own' = w.own
             /\ st' = [s \in S |-> IF s \in a THEN "open" ELSE w.st[s]]
             /\ news' = IF acc THEN Rest(w.news) ELSE w.news
             /\ aw' = (aw /\ ~acc)
             /\ q' = [s \in S |-> IF s \in got THEN Rest(w.q[s]) ELSE w.q[s]]
             /\ rd' = [s \in S |-> IF s \in got THEN "idle" ELSE rd[s]]
             /\ Log([a |-> "run", acc |-> a, peer |-> [s \in a |-> w.own[s]], got |-> [s \in got |-> w.q[s][1]]])
       /\ net' = <<>> /\ UNCHANGED n

(* the application *)
Accept == /\ news # <<>> /\ ~aw
          /\ st' = [st EXCEPT ![news[1]] = "open"] /\ news' = Rest(news)
          /\ Log([a |-> "accept", s |-> news[1], p |-> own[news[1]]])
          /\ UNCHANGED <<net, n, cur, own, q, rd, aw>>
AcceptWait == /\ news = <<>> /\ net = <<>> /\ ~aw /\ aw' = TRUE
              /\ Log([a |-> "acceptwait"])
              /\ UNCHANGED <<net, n, cur, own, st, q, rd, news>>
Idle(s) == st[s] = "open" /\ rd[s] = "idle"
Read(s) == /\ Idle(s) /\ q[s] # <<>>
           /\ q' = [q EXCEPT ![s] = Rest(@)]
           /\ Log([a |-> "read", s |-> s, id |-> q[s][1]])
           /\ UNCHANGED <<net, n, cur, own, st, rd, news, aw>>
(* too little room: an error, the datagram stays whole *)
ReadSmall(s) == /\ Idle(s) /\ q[s] # <<>>
                /\ Log([a |-> "small", s |-> s, id |-> q[s][1]])
                /\ UNCHANGED <<net, n, cur, own, st, q, rd, news, aw>>
ReadWait(s, w) == /\ Idle(s) /\ q[s] = <<>> /\ net = <<>>
                  /\ rd' = [rd EXCEPT ![s] = w]
                  /\ Log([a |-> "readwait", s |-> s, w |-> w])
                  /\ UNCHANGED <<net, n, cur, own, st, q, news, aw>>
Tick == /\ net = <<>> /\ \E s \in S : rd[s] # "idle"
        /\ rd' = [s \in S |-> IF rd[s] = "second" THEN "idle" ELSE rd[s]]
        /\ Log([a |-> "tick", late |-> {s \in S : rd[s] = "second"}])
        /\ UNCHANGED <<net, n, cur, own, st, q, news, aw>>
Write(s) == /\ st[s] = "open"
            /\ Log([a |-> "write", s |-> s, p |-> own[s]])
            /\ UNCHANGED <<net, n, cur, own, st, q, rd, news, aw>>
(* the end of a session: what was not read is gone, the peer's next datagram *)
(* opens another one                                                         *)
Close(s) == /\ Idle(s)
            /\ st' = [st EXCEPT ![s] = "closed"] /\ q' = [q EXCEPT ![s] = <<>>]
            /\ cur' = [cur EXCEPT ![own[s]] = None]
            /\ Log([a |-> "close", s |-> s])
            /\ UNCHANGED <<net, n, own, rd, news, aw>>

(* many datagrams at once, and many reads *)
Flood(p, k) == /\ cur[p] # None /\ net = <<>> /\ rd[cur[p]] = "idle" /\ n < MaxSend
               /\ LET s == cur[p]
                      m == IF Len(q[s]) + k > Cap THEN Cap - Len(q[s]) ELSE k IN
                  q' = [q EXCEPT ![s] = @ \o [i \in 1..m |-> n + i]]
               /\ n' = n + k
               /\ Log([a |-> "flood", p |-> p, from |-> n + 1, k |-> k])
               /\ UNCHANGED <<net, cur, own, st, rd, news, aw>>
ReadMany(s, k) == /\ Idle(s) /\ Len(q[s]) >= k /\ Floods # {}
                  /\ q' = [q EXCEPT ![s] = SubSeq(@, k + 1, Len(@))]
                  /\ Log([a |-> "many", s |-> s, ids |-> SubSeq(q[s], 1, k)])
                  /\ UNCHANGED <<net, n, cur, own, st, rd, news, aw>>

Next == /\ Len(hist) < MaxHist
        /\ \/ \E p \in Peers : Send(p) \/ \E k \in Floods : Flood(p, k)
           \/ Run \/ Accept \/ AcceptWait
           \/ Tick
           \/ \E s \in S : Read(s) \/ ReadSmall(s) \/ (\E w \in Waits : ReadWait(s, w)) \/ Write(s) \/ Close(s)
                           \/ \E k \in Floods : ReadMany(s, k)
Spec == Init /\ [][Next]_vars

(* a datagram is in one place at most, in the session of its peer (sent by p: *)
(* the runner's numbering), in order; at most one session of a peer is alive  *)
InOrder == \A s \in S : \A i \in 1..Len(q[s]) - 1 : q[s][i] < q[s][i + 1]
Apart == \A s, t \in S : s # t => ToSet(q[s]) \cap ToSet(q[t]) = {}
OneEach == \A s, t \in 1..Len(own) : s # t /\ own[s] = own[t] => st[s] = "closed" \/ st[t] = "closed"
Current == \A p \in Peers : cur[p] # None => own[cur[p]] = p /\ st[cur[p]] \in {"new", "open"}
Known == \A s \in 1..Len(own) : st[s] # "closed" => cur[own[s]] = s
Queued == ToSet(news) = {s \in S : st[s] = "new"}
Bounded == \A s \in S : Len(q[s]) <= Cap
Waiting == \A s \in S : rd[s] # "idle" => st[s] = "open" /\ q[s] = <<>>
Emit == PrintT("B:" \o ToJson(hist'))
EmitEnd == Len(hist') = MaxHist => Emit
=============================================================================
