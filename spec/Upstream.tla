------------------------------ MODULE Upstream ------------------------------
(* Where the requests and pulls of a host go.  A configuration has upstream  *)
(* blocks (a name, a server) and hosts, each with or without an upstream     *)
(* block of its own and a pass_proxy.  It grows by one thing at a time.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,     \* names of upstream blocks
          Addrs,     \* addresses
          Hosts,
          Inner      \* names hosts give their own upstream block

VARIABLES ups,       \* [Names -> address or none]
          own,       \* [Hosts -> none or <<name, address>>]
          pass       \* [Hosts -> none, <<"addr", a>> or <<"name", n>>]
vars == <<ups, own, pass>>
None == <<>>
Init == ups = [n \in Names |-> None] /\ own = [h \in Hosts |-> None] /\ pass = [h \in Hosts |-> None]
Define(n, a) == ups[n] = None /\ ups' = [ups EXCEPT ![n] = <<a>>] /\ UNCHANGED <<own, pass>>
Give(h, n, a) == own[h] = None /\ own' = [own EXCEPT ![h] = <<n, a>>] /\ UNCHANGED <<ups, pass>>
Pass(h, x) == pass[h] = None /\ pass' = [pass EXCEPT ![h] = x] /\ UNCHANGED <<ups, own>>
Next == \/ \E n \in Names, a \in Addrs : Define(n, a)
        \/ \E h \in Hosts, n \in Inner, a \in Addrs : Give(h, n, a)
        \/ \E h \in Hosts, a \in Addrs : Pass(h, <<"addr", a>>)
        \/ \E h \in Hosts, n \in Names : Pass(h, <<"name", n>>)
Spec == Init /\ [][Next]_vars

(* the server of the host's own upstream block; failing that what pass_proxy  *)
(* names; failing that pass_proxy itself                                      *)
Target(h) ==
  IF own[h] # None THEN <<own[h][2]>>
  ELSE IF pass[h] = None THEN None
  ELSE IF pass[h][1] = "addr" THEN <<pass[h][2]>>
  ELSE ups[pass[h][2]]
-----------------------------------------------------------------------------
Complete == \A h \in Hosts : own[h] # None \/ pass[h] # None
(* naming an upstream is the same as writing its server *)
SameAs == \A g, h \in Hosts : own[g] = None /\ own[h] = None /\ pass[g] # None /\ pass[h] # None /\
            pass[g][1] = "name" /\ pass[h][1] = "addr" /\ ups[pass[g][2]] = <<pass[h][2]>> => Target(g) = Target(h)
(* another block never matters to a host that does not name it *)
Local == [][ \A h \in Hosts : Target(h)' # Target(h) =>
               \/ own'[h] # own[h] \/ pass'[h] # pass[h]
               \/ own[h] = None /\ pass[h] # None /\ pass[h][1] = "name" /\ ups'[pass[h][2]] # ups[pass[h][2]] ]_vars
(* nothing but its own block overrules a pass_proxy *)
Once == [][ \A h \in Hosts : Target(h) # None /\ Target(h)' # Target(h) => own'[h] # own[h] ]_vars
Emit == ~Complete \/ PrintT("B:" \o ToJson([ups |-> {<<n, ups[n]>> : n \in Names},
                                            hosts |-> {[h |-> h, own |-> own[h], pass |-> pass[h], to |-> Target(h)] : h \in Hosts}]))
=============================================================================
