-------------------------------- MODULE Sync --------------------------------
(* S09, first half: streams of events that pass on what is put into them to  *)
(* the streams subscribed to them, and coroutines that wait on them.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Nodes,    \* 1..n; a stream subscribes only to ones of smaller number
          Times,    \* how long is waited; 0 for ever
          Ticks,    \* how far the clock moves at once; no sum of them is in Times
          Full,     \* whether all streams are there at first
          MaxWait, MaxHist
VARIABLES q,        \* [Nodes -> what is in the stream], of those that exist
          there,    \* those that exist
          subs,     \* <<a, b>>: b gets what a gets
          ws,       \* who waits: [w |-> number, n |-> stream, left |-> time]
          nw, k, hist
vars == <<q, there, subs, ws, nw, k, hist>>
(* what matters of a state: not the numbers given to events and waiters *)
View == <<[n \in Nodes |-> Len(q[n])], there, subs, {<<w.n, w.left>> : w \in ws}, Cardinality(ws), nw, Len(hist)>>

Init == /\ q = [n \in Nodes |-> <<>>] /\ there = (IF Full THEN Nodes ELSE {}) /\ subs = {} /\ ws = {} /\ nw = 0 /\ k = 0
        /\ hist = IF Full THEN [n \in Nodes |-> [a |-> "New", n |-> n]] ELSE <<>>
Log(r) == hist' = Append(hist, r)

RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
(* in how many ways an event put into a gets to b *)
RECURSIVE Paths(_, _)
Paths(a, b) == IF a = b THEN 1 ELSE
  LET next == {c \in Nodes : <<a, c>> \in subs /\ c <= b} IN Sum(next, [c \in next |-> Paths(c, b)])

New(n) == /\ n \notin there
          /\ there' = there \cup {n} /\ q' = [q EXCEPT ![n] = <<>>]
          /\ Log([a |-> "New", n |-> n])
          /\ UNCHANGED <<subs, ws, nw, k>>
(* given up without being cancelled *)
Drop(n) == /\ n \in there /\ \A w \in ws : w.n # n
           /\ there' = there \ {n} /\ q' = [q EXCEPT ![n] = <<>>]
           /\ subs' = {e \in subs : e[1] # n /\ e[2] # n}
           /\ Log([a |-> "Drop", n |-> n])
           /\ UNCHANGED <<ws, nw, k>>
Sub(a, b) == /\ a \in there /\ b \in there /\ a < b
             /\ subs' = subs \cup {<<a, b>>}
             /\ Log([a |-> "Sub", n |-> a, m |-> b])
             /\ UNCHANGED <<q, there, ws, nw, k>>
Cancel(a, b) == /\ a \in there /\ b \in there /\ a < b
                /\ subs' = subs \ {<<a, b>>}
                /\ Log([a |-> "Cancel", n |-> a, m |-> b])
                /\ UNCHANGED <<q, there, ws, nw, k>>
(* everybody it gets to is woken who waits at that moment, nobody else *)
Put(n) == /\ n \in there
          /\ k' = k + 1
          /\ q' = [m \in Nodes |-> q[m] \o [i \in 1..(IF m \in there THEN Paths(n, m) ELSE 0) |-> k + 1]]
          /\ LET woken == {w \in ws : w.n # n /\ Paths(n, w.n) > 0} IN
             /\ ws' = ws \ woken
             /\ Log([a |-> "Put", n |-> n, v |-> k + 1, woken |-> {w.w : w \in woken}])
          /\ UNCHANGED <<there, subs, nw>>
Dump(n, rem) == /\ n \in there
                /\ Log([a |-> "Dump", n |-> n, rem |-> rem, v |-> q[n]])
                /\ q' = IF rem THEN [q EXCEPT ![n] = <<>>] ELSE q
                /\ UNCHANGED <<there, subs, ws, nw, k>>
Wait(n, t) == /\ n \in there /\ Cardinality(ws) < MaxWait
              /\ nw' = nw + 1
              /\ ws' = ws \cup {[w |-> nw + 1, n |-> n, left |-> t]}
              /\ Log([a |-> "Wait", n |-> n, t |-> t, w |-> nw + 1])
              /\ UNCHANGED <<q, there, subs, k>>
Tick(d) == /\ ws # {}
           /\ LET late == {w \in ws : w.left # 0 /\ w.left < d} IN
              /\ ws' = {IF w.left = 0 THEN w ELSE [w EXCEPT !.left = @ - d] : w \in ws \ late}
              /\ Log([a |-> "Tick", d |-> d, late |-> {w.w : w \in late}])
           /\ UNCHANGED <<q, there, subs, nw, k>>

Next == /\ Len(hist) < MaxHist
        /\ \/ \E n \in Nodes : New(n) \/ Drop(n) \/ Put(n)
           \/ \E a, b \in Nodes : Sub(a, b) \/ Cancel(a, b)
           \/ \E n \in Nodes, r \in BOOLEAN : Dump(n, r)
           \/ \E n \in Nodes, t \in Times : Wait(n, t)
           \/ \E d \in Ticks : Tick(d)
Spec == Init /\ [][Next]_vars

OnlyThere == /\ \A e \in subs : e[1] \in there /\ e[2] \in there
             /\ \A w \in ws : w.n \in there
             /\ \A n \in Nodes \ there : q[n] = <<>>
(* what is in a stream is in the order it was put *)
InOrder == \A n \in Nodes : \A i, j \in 1..Len(q[n]) : i < j => q[n][i] <= q[n][j]
Emit == PrintT("B:" \o ToJson([h |-> hist']))
EmitEnd == Len(hist') = MaxHist => PrintT("B:" \o ToJson([h |-> hist']))
=============================================================================
