-------------------------------- MODULE Tls --------------------------------
(* Clients of an https server: from the first byte of their handshake to their  *)
(* requests, in any pieces, at any pace, with leaving and nonsense at any point. *)
(* Nothing a client does changes what another one gets.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS C,      \* clients
          Names,  \* names they ask for ("" is none)
          Ports,  \* servers: "own" has a certificate of its own, "named" only its hosts have
          Crowd,  \* whether clients act at once
          MaxOps

VARIABLES ph,     \* [client -> how far it is]
          who,    \* [client -> server, name, whether it sends data before the server has finished]
          hist
vars == <<ph, who, hist>>

(* what was sent: nothing, some or all of the hello; some or all of the keys; some of a request *)
Phases == {"none", "hello", "hello1", "keys", "keys1", "up", "up1"}
Hosts == [own |-> {"one", "two"}, named |-> {"one"}]
Cert(w) == IF w.name \in Hosts[w.port] THEN w.name ELSE IF w.port = "own" THEN "server" ELSE ""
Nobody == [port |-> "", name |-> "", fast |-> FALSE]

Init == ph = [c \in C |-> "none"] /\ who = [c \in C |-> Nobody] /\ hist = <<>>

(* what c sees: got is "flight", "up", "answer" (all of it that is due), closed *)
Step(a, c, w, p, got) ==
  /\ ph' = [ph EXCEPT ![c] = p] /\ who' = [who EXCEPT ![c] = IF p = "none" THEN Nobody ELSE w]
  /\ hist' = Append(hist, [a |-> a, c |-> c, w |-> w, p |-> p, got |-> got, cert |-> Cert(w),
                           on |-> {d \in C : ph'[d] # "none"}])

Open(c) == ph[c] = "none" /\ \E p \in Ports, n \in Names, f \in BOOLEAN : Step("open", c, [port |-> p, name |-> n, fast |-> f], "hello", "")
Part(c) == \/ ph[c] = "hello" /\ Step("part", c, who[c], "hello1", "")
           \/ ph[c] = "keys" /\ Step("part", c, who[c], "keys1", "")
           \/ ph[c] = "up" /\ Step("part", c, who[c], "up1", "")
(* the whole flight, or what remains of it *)
Whole(c) == \/ /\ ph[c] \in {"hello", "hello1"}
               /\ IF Cert(who[c]) = "" THEN Step("whole", c, who[c], "none", "closed") ELSE Step("whole", c, who[c], "keys", "flight")
            \/ ph[c] \in {"keys", "keys1"} /\ Step("whole", c, who[c], "up", "up")
            \/ ph[c] \in {"up", "up1"} /\ Step("whole", c, who[c], "up", "answer")
(* its request follows at once, before the server's answer to its keys *)
Fast(c) == /\ who[c].fast /\ ph[c] \in {"keys", "keys1"} 
           /\ \/ Step("fast", c, who[c], "up", "answer")
              \/ Step("fasthalf", c, who[c], "up1", "up")
Two(c) == ph[c] \in {"up", "up1"} /\ Step("two", c, who[c], "up", "answers")
Junk(c) == ph[c] # "none" /\ Step("junk", c, who[c], "none", "closed")
Leave(c) == ph[c] # "none" /\ \E h \in {"fin", "rst"} \cup (IF ph[c] = "up" THEN {"bye"} ELSE {}) :
              Step(h, c, who[c], "none", IF h = "bye" THEN "closed" ELSE "")
(* what clients do at the same moment, before the server takes a step, it does for each as if it were alone *)
All == SetToSeq([port : Ports, name : Names, fast : BOOLEAN])
Num == [c \in C |-> CHOOSE i \in 1..Cardinality(C) : SetToSeq(C)[i] = c]
Does(c, leaves) ==
  LET w == IF ph[c] = "none" THEN All[1 + ((7 * Num[c] + 5 * Len(hist)) % Len(All))] ELSE who[c]
      r(a, p, got) == [a |-> a, c |-> c, w |-> w, p |-> p, got |-> got, cert |-> Cert(w)]
  IN IF leaves THEN r(IF Len(hist) % 2 = 0 THEN "fin" ELSE "rst", "none", "")
     ELSE CASE ph[c] = "none" -> r("open", "hello", "")
            [] ph[c] \in {"hello", "hello1"} -> IF Cert(w) = "" THEN r("whole", "none", "closed") ELSE r("whole", "keys", "flight")
            [] ph[c] \in {"keys", "keys1"} -> IF w.fast THEN r("fast", "up", "answer") ELSE r("whole", "up", "up")
            [] OTHER -> r("whole", "up", "answer")
Many == \E D \in SUBSET C : Cardinality(D) >= 2 /\ \E l \in {0} \cup {i \in 1..Cardinality(C) : SetToSeq(C)[i] \in D /\ ph[SetToSeq(C)[i]] # "none"} :
          LET do == [c \in D |-> Does(c, Num[c] = l)] IN
          /\ ph' = [c \in C |-> IF c \in D THEN do[c].p ELSE ph[c]]
          /\ who' = [c \in C |-> IF c \notin D THEN who[c] ELSE IF do[c].p = "none" THEN Nobody ELSE do[c].w]
          /\ hist' = Append(hist, [a |-> "many", each |-> {do[c] : c \in D}, on |-> {d \in C : ph'[d] # "none"}])
Next == /\ Len(hist) < MaxOps
        /\ IF Crowd THEN Many \/ (\E c \in C : Part(c) \/ Junk(c))
           ELSE \E c \in C : Open(c) \/ Part(c) \/ Whole(c) \/ Fast(c) \/ Two(c) \/ Junk(c) \/ Leave(c)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
TypeOK == ph \in [C -> Phases]
(* nobody gets beyond the hello without a certificate: its host's where the host has one *)
Known == \A c \in C : ph[c] \in {"keys", "keys1", "up", "up1"} =>
            /\ Cert(who[c]) # ""
            /\ who[c].name \in Hosts[who[c].port] => Cert(who[c]) = who[c].name
(* a step is its client's own: the others are where they were *)
Apart == [][Crowd \/ \A c, d \in C : (c # d /\ ph'[c] # ph[c]) => ph'[d] = ph[d]]_vars
(* who is not served any more has left, sent nonsense or could not be given a certificate *)
Ends == \A i \in 1..Len(hist) : hist[i].a # "many" /\ hist[i].p = "none" =>
          \/ hist[i].a \in {"junk", "fin", "rst", "bye"} \/ hist[i].cert = ""
LastStep == IF hist = <<>> THEN <<>> ELSE LET h == hist[Len(hist)] IN IF h.a = "many" THEN <<h.each>> ELSE <<h.a, h.c, h.w, h.p>>
GView == <<ph, who, LastStep>>
Emit == PrintT("B:" \o ToJson([ops |-> hist']))
EmitEnd == Len(hist') < MaxOps \/ PrintT("B:" \o ToJson([ops |-> hist']))
=============================================================================
