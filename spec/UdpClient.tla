----------------------------- MODULE UdpClient -----------------------------
(* UDP clients: what a client writes arrives at the peer it was made for, and *)
(* there only; it reads what is sent to it, datagram by datagram - a          *)
(* connected one only what its peer sends.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Targets, MaxC, MaxSend, MaxHist
VARIABLES to, con, in, rd, n, hist
vars == <<to, con, in, rd, n, hist>>
C == 1..Len(to)

Init == to = <<>> /\ con = <<>> /\ in = <<>> /\ rd = <<>> /\ n = 0 /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
New(t, c) == /\ Len(to) < MaxC
             /\ to' = Append(to, t) /\ con' = Append(con, c) /\ in' = Append(in, <<>>) /\ rd' = Append(rd, "idle")
             /\ Log([a |-> "new", t |-> t, con |-> c]) /\ UNCHANGED n
Write(c) == /\ n < MaxSend /\ n' = n + 1
            /\ Log([a |-> "write", c |-> c, t |-> to[c], id |-> n + 1]) /\ UNCHANGED <<to, con, in, rd>>
(* t sends to the client's port (which a client has once it has written or is connected) *)
Reply(t, c, known) ==
               /\ n < MaxSend /\ known /\ n' = n + 1
               /\ LET heard == ~con[c] \/ to[c] = t IN
                  IF heard /\ rd[c] # "idle"
                  THEN /\ rd' = [rd EXCEPT ![c] = "idle"] /\ UNCHANGED in
                       /\ Log([a |-> "reply", t |-> t, c |-> c, id |-> n + 1, done |-> TRUE])
                  ELSE /\ in' = IF heard THEN [in EXCEPT ![c] = Append(@, [id |-> n + 1, t |-> t])] ELSE in
                       /\ UNCHANGED rd
                       /\ Log([a |-> "reply", t |-> t, c |-> c, id |-> n + 1, done |-> FALSE])
               /\ UNCHANGED <<to, con>>
Read(c) == /\ in[c] # <<>>
           /\ in' = [in EXCEPT ![c] = SubSeq(@, 2, Len(@))]
           /\ Log([a |-> "read", c |-> c, id |-> in[c][1].id, t |-> in[c][1].t])
           /\ UNCHANGED <<to, con, rd, n>>
ReadWait(c, w) == /\ in[c] = <<>> /\ rd[c] = "idle"
                  /\ rd' = [rd EXCEPT ![c] = w] /\ Log([a |-> "readwait", c |-> c, w |-> w])
                  /\ UNCHANGED <<to, con, in, n>>
Tick == /\ \E c \in C : rd[c] # "idle"
        /\ rd' = [c \in C |-> IF rd[c] = "second" THEN "idle" ELSE rd[c]]
        /\ Log([a |-> "tick", late |-> {c \in C : rd[c] = "second"}])
        /\ UNCHANGED <<to, con, in, n>>
Bound(c) == con[c] \/ \E i \in 1..Len(hist) : hist[i].a = "write" /\ hist[i].c = c
Next == /\ Len(hist) < MaxHist
        /\ \/ \E t \in Targets, c \in BOOLEAN : New(t, c)
           \/ \E c \in C : Write(c) \/ Read(c) \/ (\E t \in Targets : Reply(t, c, Bound(c))) \/ \E w \in {"ever", "second"} : ReadWait(c, w)
           \/ Tick
Spec == Init /\ [][Next]_vars
OwnOnly == \A c \in C : con[c] => \A i \in 1..Len(in[c]) : in[c][i].t = to[c]
Emit == PrintT("B:" \o ToJson(hist'))
EmitEnd == Len(hist') = MaxHist => Emit
=============================================================================
