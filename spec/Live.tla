-------------------------------- MODULE Live --------------------------------
(* The streaming core of the server as its clients see it: publishers (HTTP  *)
(* POST of FLV), players (HTTP GET), edge pulls from an upstream, time.      *)
(*                                                                           *)
(* One step = one thing a client, the upstream or the clock does, followed   *)
(* by everything the server does about it until it is quiescent.  What every *)
(* connection must observe in that step is written in `act.ev`.  The         *)
(* conformance check performs the same steps on the real server over         *)
(* loopback and compares every observation.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Streams,      \* stream names (strings)
          Edge,         \* those that live on an edge host
          Pubs,         \* publisher connections (strings)
          Players,      \* player connections (strings)
          Kinds,        \* packet kinds a publisher sends
          Ends,         \* ways in which a publisher ends: "fin" "rst" "bad" "half"
          Leaves,       \* ways in which a player leaves:  "fin" "rst"
          Exts,         \* upload formats: subset of {"flv","ts"}
          MaxPkt,       \* packets in a behaviour
          MaxTick,      \* clock steps in a behaviour
          Ticks,        \* their sizes, in tenths of a second (no sum is 100)
          MaxGen,       \* publications/pulls in a behaviour
          Burst,        \* TRUE: a publisher also sends two packets in one go
          Stalls        \* TRUE: players may stop and resume reading

ASSUME /\ Kinds \subseteq {"script", "ah", "vh", "key", "inter", "audio"}
       /\ Edge \subseteq Streams

VARIABLES src,    \* [Streams -> "none" | "pub" | "opening" | "edge"]
          gen,    \* [Streams -> Nat]  generation of the current source
          hdr,    \* [Streams -> [script, ah, vh: packet number, 0 = none]]
          gop,    \* [Streams -> Seq(packet number)]
          pub,    \* [Pubs -> [s: stream or "", ext]]
          pl,     \* [Players -> [st, s, g, idle, back]]
          cnt,    \* [pkt, tick, gen: Nat]  counters that bound the behaviour
          act     \* the step just taken, with what everybody must observe

vars == <<src, gen, hdr, gop, pub, pl, cnt, act>>
View == <<src, gen, hdr, gop, pub, pl, cnt>>

NoHdr   == [script |-> 0, ah |-> 0, vh |-> 0]
IdlePl  == [st |-> "idle", s |-> "", g |-> 0, idle |-> 0, back |-> <<>>]
IdlePub == [s |-> "", ext |-> ""]
Conns   == Pubs \cup Players \cup {"up"}    \* "up": the upstream's accept queue

Init == /\ src = [s \in Streams |-> "none"]
        /\ gen = [s \in Streams |-> 0]
        /\ hdr = [s \in Streams |-> NoHdr]
        /\ gop = [s \in Streams |-> <<>>]
        /\ pub = [c \in Pubs |-> IdlePub]
        /\ pl  = [p \in Players |-> IdlePl]
        /\ cnt = [pkt |-> 0, tick |-> 0, gen |-> 0]
        /\ act = [a |-> "Init"]

----------------------------------------------------------------------------
(* what a packet does to the state kept for joiners *)
Hdr2(h, k, n) == CASE k = "script" -> [h EXCEPT !.script = n]
                   [] k = "ah"     -> [h EXCEPT !.ah = n]
                   [] k = "vh"     -> [h EXCEPT !.vh = n]
                   [] OTHER        -> h
Gop2(g, k, n) == CASE k \in {"script", "ah", "vh"} -> g
                   [] k = "key"                    -> <<n>>
                   [] OTHER -> IF g = <<>> THEN g ELSE Append(g, n)

Opt(n)      == IF n = 0 THEN <<>> ELSE <<n>>
Snapshot(s) == Opt(hdr[s].script) \o Opt(hdr[s].ah) \o Opt(hdr[s].vh) \o gop[s]

On(s, g)  == {p \in Players : pl[p].st \in {"play", "stall"} /\ pl[p].s = s /\ pl[p].g = g}
Quiet     == [c \in Conns |-> <<>>]
NoExtra   == [ev |-> Quiet]

(* ns (sequence of packet numbers) of the current source of s reach its players *)
Deliver(s, ns, idle0) ==
  [p \in Players |->
     IF p \in On(s, gen[s])
     THEN [pl[p] EXCEPT !.idle = 0,
                        !.back = IF @ = <<>> /\ pl[p].st = "play" THEN @ ELSE @ \o ns]
     ELSE pl[p]]
DeliverEv(s, ns) ==
  [c \in Conns |->
     IF c \in Players /\ c \in On(s, gen[s]) /\ pl[c].st = "play" THEN ns ELSE <<>>]

Live(s) == src[s] \in {"pub", "edge"}

----------------------------------------------------------------------------
(* publishers *)
PubStart(c, s, e) ==
  /\ pub[c].s = "" /\ s \notin Edge /\ cnt.gen < MaxGen
  /\ cnt' = [cnt EXCEPT !.gen = @ + 1]
  /\ IF src[s] = "none"
     THEN /\ src' = [src EXCEPT ![s] = "pub"]
          /\ gen' = [gen EXCEPT ![s] = @ + 1]
          /\ hdr' = [hdr EXCEPT ![s] = NoHdr]
          /\ gop' = [gop EXCEPT ![s] = <<>>]
          /\ pub' = [pub EXCEPT ![c] = [s |-> s, ext |-> e]]
          /\ act' = [a |-> "PubStart", c |-> c, s |-> s, e |-> e, ev |-> Quiet]
     ELSE /\ UNCHANGED <<src, gen, hdr, gop, pub>>
          /\ act' = [a |-> "PubStart", c |-> c, s |-> s, e |-> e,
                     ev |-> [Quiet EXCEPT ![c] = <<"closed">>]]
  /\ UNCHANGED pl

FeedAt(s, ks, name, who, n) ==       \* the packets get the numbers n+1, ...
  LET h1 == Hdr2(hdr[s], ks[1], n + 1)
      g1 == Gop2(gop[s], ks[1], n + 1)
      two == Len(ks) = 2
      ns == IF two THEN <<n + 1, n + 2>> ELSE <<n + 1>>
  IN  /\ cnt.pkt + Len(ks) <= MaxPkt
      /\ hdr' = [hdr EXCEPT ![s] = IF two THEN Hdr2(h1, ks[2], n + 2) ELSE h1]
      /\ gop' = [gop EXCEPT ![s] = IF two THEN Gop2(g1, ks[2], n + 2) ELSE g1]
      /\ cnt' = [cnt EXCEPT !.pkt = @ + Len(ks)]
      /\ pl'  = Deliver(s, ns, 0)
      /\ act' = [a |-> name, c |-> who, s |-> s, k |-> ks, n |-> n + 1, ev |-> DeliverEv(s, ns)]
      /\ UNCHANGED <<src, gen, pub>>

Feed(s, ks, name, who) == FeedAt(s, ks, name, who, cnt.pkt)

KindSeqs == {<<k>> : k \in Kinds} \cup
            (IF Burst THEN {<<k1, k2>> : k1, k2 \in Kinds} ELSE {})

PubSend(c, ks) == /\ pub[c].s # "" /\ pub[c].ext = "flv"
                  /\ Feed(pub[c].s, ks, "PubSend", c)

PubEnd(c, how) ==
  /\ pub[c].s # ""
  /\ src' = [src EXCEPT ![pub[c].s] = "none"]
  /\ pub' = [pub EXCEPT ![c] = IdlePub]
  /\ hdr' = [hdr EXCEPT ![pub[c].s] = NoHdr]
  /\ gop' = [gop EXCEPT ![pub[c].s] = <<>>]
  /\ act' = [a |-> "PubEnd", c |-> c, how |-> how,
             ev |-> [Quiet EXCEPT ![c] = IF how \in {"bad", "half"} THEN <<"closed">> ELSE <<>>]]
  /\ UNCHANGED <<gen, pl, cnt>>

----------------------------------------------------------------------------
(* players *)
Play(p, s) ==
  /\ pl[p].st = "idle"
  /\ CASE Live(s) ->
            /\ pl' = [pl EXCEPT ![p] = [IdlePl EXCEPT !.st = "play", !.s = s, !.g = gen[s]]]
            /\ act' = [a |-> "Play", p |-> p, s |-> s,
                       ev |-> [Quiet EXCEPT ![p] = <<"200">> \o Snapshot(s)]]
            /\ UNCHANGED <<src, cnt>>
       [] ~Live(s) /\ s \notin Edge ->
            /\ act' = [a |-> "Play", p |-> p, s |-> s, ev |-> [Quiet EXCEPT ![p] = <<"404">>]]
            /\ UNCHANGED <<src, pl, cnt>>
       [] ~Live(s) /\ s \in Edge ->
            /\ src[s] = "opening" \/ cnt.gen < MaxGen
            /\ src' = [src EXCEPT ![s] = "opening"]
            /\ cnt' = IF src[s] = "opening" THEN cnt ELSE [cnt EXCEPT !.gen = @ + 1]
            /\ pl' = [pl EXCEPT ![p] = [IdlePl EXCEPT !.st = "wait", !.s = s]]
            /\ act' = [a |-> "Play", p |-> p, s |-> s,
                       ev |-> [Quiet EXCEPT !["up"] = IF src[s] = "opening" THEN <<>> ELSE <<s>>]]
  /\ UNCHANGED <<gen, hdr, gop, pub>>

Leave(p, how) ==
  /\ pl[p].st \in {"play", "wait", "stall"}
  /\ pl' = [pl EXCEPT ![p] = IdlePl]
  /\ act' = [a |-> "Leave", p |-> p, how |-> how, ev |-> Quiet]
  /\ UNCHANGED <<src, gen, hdr, gop, pub, cnt>>

Stall(p) ==
  /\ Stalls /\ pl[p].st = "play"
  /\ pl' = [pl EXCEPT ![p].st = "stall"]
  /\ act' = [a |-> "Stall", p |-> p, ev |-> Quiet]
  /\ UNCHANGED <<src, gen, hdr, gop, pub, cnt>>

Resume(p) ==
  /\ pl[p].st = "stall"
  /\ pl' = [pl EXCEPT ![p].st = "play", ![p].back = <<>>]
  /\ act' = [a |-> "Resume", p |-> p, ev |-> [Quiet EXCEPT ![p] = pl[p].back]]
  /\ UNCHANGED <<src, gen, hdr, gop, pub, cnt>>

----------------------------------------------------------------------------
(* the upstream of an edge *)
Waiting(s) == {p \in Players : pl[p].st = "wait" /\ pl[p].s = s}

UpAnswer(s) ==
  /\ src[s] = "opening"
  /\ src' = [src EXCEPT ![s] = "edge"]
  /\ gen' = [gen EXCEPT ![s] = @ + 1]
  /\ hdr' = [hdr EXCEPT ![s] = NoHdr]
  /\ gop' = [gop EXCEPT ![s] = <<>>]
  /\ pl'  = [p \in Players |-> IF p \in Waiting(s)
                               THEN [pl[p] EXCEPT !.st = "play", !.g = gen[s] + 1, !.idle = 0]
                               ELSE pl[p]]
  /\ act' = [a |-> "UpAnswer", s |-> s,
             ev |-> [c \in Conns |-> IF c \in Waiting(s) THEN <<"200">> ELSE <<>>]]
  /\ UNCHANGED <<pub, cnt>>

UpRefuse(s, how) ==
  /\ src[s] = "opening"
  /\ src' = [src EXCEPT ![s] = "none"]
  /\ pl'  = [p \in Players |-> IF p \in Waiting(s) THEN IdlePl ELSE pl[p]]
  /\ act' = [a |-> "UpRefuse", s |-> s, how |-> how,
             ev |-> [c \in Conns |-> IF c \in Waiting(s) THEN <<"404">> ELSE <<>>]]
  /\ UNCHANGED <<gen, hdr, gop, pub, cnt>>

UpSend(s, ks) == src[s] = "edge" /\ Feed(s, ks, "UpSend", "up")

UpEnd(s, how) ==
  /\ src[s] = "edge"
  /\ src' = [src EXCEPT ![s] = "none"]
  /\ hdr' = [hdr EXCEPT ![s] = NoHdr]
  /\ gop' = [gop EXCEPT ![s] = <<>>]
  /\ act' = [a |-> "UpEnd", s |-> s, how |-> how, ev |-> Quiet]
  /\ UNCHANGED <<gen, pub, pl, cnt>>

----------------------------------------------------------------------------
(* the clock, in tenths of a second: the server's patience is 10 s *)
Patience == 100
Tick(d) ==
  /\ cnt.tick < MaxTick
  /\ \A p \in Players : pl[p].st # "stall"
  /\ cnt' = [cnt EXCEPT !.tick = @ + 1]
  /\ pl' = [p \in Players |->
              IF pl[p].st = "idle" THEN pl[p]
              ELSE IF pl[p].idle + d > Patience THEN IdlePl ELSE [pl[p] EXCEPT !.idle = @ + d]]
  /\ act' = [a |-> "Tick", d |-> d,
             ev |-> [c \in Conns |->
                       IF c \in Players /\ pl[c].st # "idle" /\ pl[c].idle + d > Patience
                       THEN IF pl[c].st = "wait" THEN <<"404">> ELSE <<"closed">>
                       ELSE <<>>]]
  /\ UNCHANGED <<src, gen, hdr, gop, pub>>

----------------------------------------------------------------------------
Next == \/ \E c \in Pubs, s \in Streams, e \in Exts : PubStart(c, s, e)
        \/ \E c \in Pubs, ks \in KindSeqs : PubSend(c, ks)
        \/ \E c \in Pubs, how \in Ends : PubEnd(c, how)
        \/ \E p \in Players, s \in Streams : Play(p, s)
        \/ \E p \in Players, how \in Leaves : Leave(p, how)
        \/ \E p \in Players : Stall(p) \/ Resume(p)
        \/ \E s \in Edge : UpAnswer(s)
        \/ \E s \in Edge, how \in {"404", "500", "302", "206", "drop"} : UpRefuse(s, how)
        \/ \E s \in Edge, ks \in KindSeqs : UpSend(s, ks)
        \/ \E s \in Edge, how \in {"fin", "rst"} : UpEnd(s, how)
        \/ \E d \in Ticks : Tick(d)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* properties of the design, checked by TLC on the specification *)
TypeOK == /\ src \in [Streams -> {"none", "pub", "opening", "edge"}]
          /\ \A p \in Players : pl[p].st \in {"idle", "wait", "play", "stall"}
          /\ \A s \in Streams : src[s] \in {"opening", "edge"} => s \in Edge

(* S03: at most one publisher per stream, and the map agrees with it *)
OnePublisher == \A s \in Streams :
                  Cardinality({c \in Pubs : pub[c].s = s}) = (IF src[s] = "pub" THEN 1 ELSE 0)

(* S02: what is kept never reaches back beyond the latest keyframe, in order *)
Kept == \A s \in Streams : /\ \A i \in 1..Len(gop[s]) - 1 : gop[s][i] < gop[s][i + 1]
                           /\ (~Live(s)) => gop[s] = <<>> /\ hdr[s] = NoHdr

(* S05: a player waits only while a pull is open, never for a stream it could play *)
WaitersHaveAPull == \A p \in Players : pl[p].st = "wait" => src[pl[p].s] = "opening"

(* nobody plays a generation that does not exist yet *)
GenOK == \A p \in Players : pl[p].st \in {"play", "stall"} => pl[p].g \in 1..gen[pl[p].s]

(* S01: whatever reaches a player in a step is consecutive and new *)
StepExact == [][\A p \in Players :
                  (act'.a \in {"PubSend", "UpSend"} /\ act'.ev[p] # <<>>)
                     => act'.ev[p] = [i \in 1..Len(act'.k) |-> cnt.pkt + i]]_vars
=============================================================================
