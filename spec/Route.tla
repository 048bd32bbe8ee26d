------------------------------- MODULE Route -------------------------------
(* Which host block handles a request.  A configuration is a set of places   *)
(* (global blocks and servers), each holding host blocks; a server listens on *)
(* a port.  It grows by one host block at a time; every configuration reached *)
(* is a starting point of the real server.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Globals,   \* places for global host blocks
          Servers,   \* places that are servers
          PortOf,    \* [Servers -> port]
          Labels,    \* labels host names are made of
          MaxLen,    \* labels in a requested name
          MaxHosts,  \* host blocks in a configuration
          EmitAll    \* emit every configuration, or the largest only

Places == Globals \cup Servers
Ports  == {PortOf[s] : s \in Servers}

Star == "*"
Default == <<Star>>
Seqs(n) == UNION {[1..k -> Labels] : k \in 1..n}
Hosts  == Seqs(MaxLen)                               \* what clients ask for
Wilds  == {<<Star>> \o s : s \in Seqs(MaxLen - 1)}   \* *.suffix
Bad    == {<<"*x">>, <<"*x", "a">>, <<"*", "">>}     \* *x, *x.a and *. say nothing

CONSTANTS Names      \* names given to host blocks: subset of Hosts, Wilds, Bad, Default
ASSUME Names \subseteq Hosts \cup Wilds \cup Bad \cup {Default}

VARIABLES cnt,       \* [Places -> [Names -> how many such blocks]]
          total
vars == <<cnt, total>>

Init == cnt = [p \in Places |-> [n \in Names |-> 0]] /\ total = 0
Add(p, n) == /\ total < MaxHosts
             /\ cnt' = [cnt EXCEPT ![p][n] = @ + 1]
             /\ total' = total + 1
Next == \E p \in Places, n \in Names : Add(p, n)
Spec == Init /\ [][Next]_vars

(* the places whose blocks serve a port: every global one, and its servers *)
At(port) == Globals \cup {s \in Servers : PortOf[s] = port}
Sum(f, S) == LET F[T \in SUBSET S] == IF T = {} THEN 0
                                      ELSE LET x == CHOOSE y \in T : TRUE IN f[x] + F[T \ {x}]
             IN F[S]
CountAt(port, n) == Sum([p \in At(port) |-> cnt[p][n]], At(port))

(* rejected at start: a name twice at one port, or one that is no name *)
Starts == /\ \A port \in Ports, n \in Names : CountAt(port, n) <= 1
          /\ \A port \in Ports, n \in Names \cap Bad : CountAt(port, n) = 0

Holder(port, n) == CHOOSE p \in At(port) : cnt[p][n] > 0
Block(port, n)  == <<Holder(port, n), n>>
None == <<"none", <<>>>>

Covers(w, h) == Len(h) >= 2 /\ Len(w) = Len(h) /\ Tail(w) = Tail(h)
Decide(port, h) ==
  LET here == {n \in Names : CountAt(port, n) > 0}
  IN IF h \in here THEN Block(port, h)
     ELSE IF \E w \in here \cap Wilds : Covers(w, h)
          THEN Block(port, CHOOSE w \in here \cap Wilds : Covers(w, h))
     ELSE IF Default \in here THEN Block(port, Default)
     ELSE None

-----------------------------------------------------------------------------
(* what is relied on *)
Rank(n, h) == IF n = h THEN 3 ELSE IF n \in Wilds /\ Covers(n, h) THEN 2 ELSE IF n = Default THEN 1 ELSE 0
(* the best match wins, and there is only one *)
Best == Starts => \A port \in Ports, h \in Hosts :
  LET d == Decide(port, h)
      here == {n \in Names : CountAt(port, n) > 0}
  IN IF d = None THEN \A n \in here : Rank(n, h) = 0
     ELSE /\ Rank(d[2], h) > 0
          /\ \A n \in here \ {d[2]} : Rank(n, h) < Rank(d[2], h)
(* a global block is there on every port *)
GlobalEverywhere == Starts => \A g \in Globals, n \in Names, p, q \in Ports :
  cnt[g][n] > 0 => \A h \in Hosts : Rank(n, h) = 3 => Decide(p, h) = Decide(q, h)
(* one more block takes over only what it matches better *)
OneMore == [][ Starts /\ Starts' => \A port \in Ports, h \in Hosts :
    Decide(port, h)' # Decide(port, h) =>
       Rank(Decide(port, h)'[2], h) > (IF Decide(port, h) = None THEN 0 ELSE Rank(Decide(port, h)[2], h)) ]_vars
(* a rejected configuration is never repaired by adding to it *)
RejectedStays == [][ ~Starts => ~Starts' ]_vars

Row(port, h) == [p |-> port, h |-> h, b |-> Decide(port, h)]
Emit == (~EmitAll /\ total # MaxHosts) \/
  PrintT("B:" \o ToJson([cnt |-> {<<p, n, cnt[p][n]>> : p \in Places, n \in {m \in Names : \E q \in Places : cnt[q][m] > 0}},
                         starts |-> Starts,
                         rows |-> IF Starts THEN {Row(port, h) : port \in Ports, h \in Hosts} ELSE {}]))
=============================================================================
