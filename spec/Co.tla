--------------------------------- MODULE Co ---------------------------------
(* S09, second half: coroutines.  A handler that is started runs once, begun *)
(* when its turn comes, unless it was given up before; it lives while it     *)
(* runs, whether given up meanwhile or not, and as long as somebody has it.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Hs, MaxHist
VARIABLES st,     \* "none", "idle", "started" (its turn has not come), "running"
          had,    \* those somebody has
          turn,   \* the order in which they were started
          hist
vars == <<st, had, turn, hist>>
View == <<st, had, turn, Len(hist)>>
Init == st = [h \in Hs |-> "none"] /\ had = {} /\ turn = <<>> /\ hist = <<>>
Log(r) == hist' = Append(hist, r)

Make(h) == /\ st[h] = "none"
           /\ st' = [st EXCEPT ![h] = "idle"] /\ had' = had \cup {h}
           /\ Log([a |-> "Make", h |-> h, gone |-> {}]) /\ UNCHANGED turn
Start(h) == /\ st[h] = "idle" /\ h \in had
            /\ st' = [st EXCEPT ![h] = "started"] /\ turn' = Append(turn, h)
            /\ Log([a |-> "Start", h |-> h, gone |-> {}]) /\ UNCHANGED had
(* one that runs goes when it is through *)
Drop(h) == /\ h \in had
           /\ had' = had \ {h}
           /\ LET go == st[h] # "running" IN
              /\ st' = IF go THEN [st EXCEPT ![h] = "none"] ELSE st
              /\ turn' = IF go THEN SelectSeq(turn, LAMBDA x : x # h) ELSE turn
              /\ Log([a |-> "Drop", h |-> h, gone |-> IF go THEN {h} ELSE {}])
(* the others' turn *)
Yield == /\ st' = [h \in Hs |-> IF st[h] = "started" THEN "running" ELSE st[h]]
         /\ turn' = <<>>
         /\ Log([a |-> "Yield", v |-> turn, gone |-> {}]) /\ UNCHANGED had
(* what a running one waits for happens, and it ends *)
Finish(h) == /\ st[h] = "running"
             /\ st' = [x \in Hs |-> IF x = h THEN (IF h \in had THEN "idle" ELSE "none")
                                    ELSE IF st[x] = "started" THEN "running" ELSE st[x]]
             /\ turn' = <<>>
             /\ Log([a |-> "Finish", h |-> h, v |-> turn, gone |-> IF h \in had THEN {} ELSE {h}])
             /\ UNCHANGED had
Next == /\ Len(hist) < MaxHist
        /\ \/ \E h \in Hs : Make(h) \/ Start(h) \/ Drop(h) \/ Finish(h)
           \/ Yield
Spec == Init /\ [][Next]_vars
Lives == \A h \in Hs : /\ (h \in had => st[h] # "none")
                       /\ (st[h] \in {"idle", "started"} => h \in had)
                       /\ (st[h] = "started" <=> \E i \in 1..Len(turn) : turn[i] = h)
Emit == PrintT("B:" \o ToJson([h |-> hist']))
EmitEnd == Len(hist') = MaxHist => PrintT("B:" \o ToJson([h |-> hist']))
=============================================================================
