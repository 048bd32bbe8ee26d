-------------------------------- MODULE Dial --------------------------------
(* Connections that the library makes to others: over TCP, TLS and SRT, to a  *)
(* peer that answers, refuses, stays silent, or spoils the TLS handshake at    *)
(* some point; the bytes of both directions; waiting reads and writes; ends.   *)
(* Time passes in ticks; whoever waits states for how many (0: for ever).      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxC, MaxBlocks, MaxHist, Limits
VARIABLES cs, hist
vars == <<cs, hist>>
View == cs
C == 1..Len(cs)

(* ph: dial, up, failed, closed, broken (a write was given up: only closing is left)   *)
(* hs: flights of the peer that TLS has seen, 9: not yet a connection below            *)
(* part: some of a flight or of a record has arrived;  in: blocks arrived, not read    *)
(* n: blocks sent by the peer;  m: blocks written to it                                *)
(* rd, wr: a read ("one" block, "two" blocks) or write waits; rl, wl: how long from now *)
(* (a read that waits for rw waits so long for the peer's next byte)                    *)
Conn(k, ph, hs, w) == [k |-> k, ph |-> ph, hs |-> hs, tm |-> w, quiet |-> 0, part |-> FALSE, in |-> <<>>, n |-> 0, m |-> 0,
                       rd |-> "no", rw |-> 0, rl |-> 0, wr |-> FALSE, wl |-> 0, gone |-> FALSE]
Init == cs = <<>> /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Set(c, r) == cs' = [cs EXCEPT ![c] = r]

(* ----- making a connection *)
Dial(k, m, w) ==
    /\ Len(cs) < MaxC
    /\ (m = "refuse" => k # "srt") /\ (m = "reject" => k = "srt")
    /\ LET ph == IF m \in {"refuse", "reject"} THEN "failed" ELSE IF m = "silent" \/ k = "tls" THEN "dial" ELSE "up"
       IN cs' = Append(cs, Conn(k, ph, IF m = "silent" THEN 9 ELSE 0, w)) /\ Log([a |-> "dial", k |-> k, m |-> m, w |-> w, ph |-> ph])
Shaking(c) == cs[c].ph = "dial" /\ cs[c].hs # 9
(* the peer's next flight of the handshake: a part of it, (the rest of) it, or *)
(* the rest of the last one with a first block right behind                    *)
Give(c, how) ==
    /\ Shaking(c) /\ (how = "part" => ~cs[c].part) /\ (how = "glued" => cs[c].hs = 1 /\ MaxBlocks > 0)
    /\ Set(c, [cs[c] EXCEPT !.quiet = 0, !.part = (how = "part"),
               !.hs = IF how = "part" THEN @ ELSE @ + 1,
               !.ph = IF how # "part" /\ cs[c].hs = 1 THEN "up" ELSE @,
               !.in = IF how = "glued" THEN <<1>> ELSE @, !.n = IF how = "glued" THEN 1 ELSE @])
    /\ Log([a |-> "give", c |-> c, how |-> how, flight |-> cs[c].hs + 1, ph |-> cs'[c].ph])
Spoil(c, how) == /\ Shaking(c) /\ (how # "close" => ~cs[c].part)
                 /\ Set(c, [cs[c] EXCEPT !.ph = "failed"]) /\ Log([a |-> "spoil", c |-> c, how |-> how])

(* ----- the peer *)
Up(c) == cs[c].ph = "up"
Live(c) == Up(c) /\ ~cs[c].gone
(* a waiting read ends when what it waits for is there *)
Arrive(r, b) == LET i == Append(r.in, b) IN
                IF r.rd = "one" \/ (r.rd = "two" /\ Len(i) = 2) THEN [r EXCEPT !.in = <<>>, !.rd = "no"] ELSE [r EXCEPT !.in = i]
Send(c) == /\ Live(c) /\ cs[c].n < MaxBlocks
           /\ Set(c, Arrive([cs[c] EXCEPT !.n = @ + 1, !.part = FALSE], cs[c].n + 1))
           /\ Log([a |-> "send", c |-> c, id |-> cs[c].n + 1, rest |-> cs[c].part, done |-> cs[c].rd # "no" /\ cs'[c].rd = "no", in |-> cs[c].in])
SendPart(c) == /\ Live(c) /\ cs[c].k = "tls" /\ cs[c].n < MaxBlocks /\ ~cs[c].part
               /\ Set(c, [cs[c] EXCEPT !.part = TRUE, !.rl = IF cs[c].rd = "no" THEN 0 ELSE cs[c].rw]) /\ Log([a |-> "part", c |-> c, id |-> cs[c].n + 1])
Leave(c) == /\ Live(c) /\ ~cs[c].wr
            /\ Set(c, [cs[c] EXCEPT !.gone = TRUE, !.rd = "no", !.in = IF cs[c].rd = "two" THEN <<>> ELSE @])
            /\ Log([a |-> "leave", c |-> c, end |-> cs[c].rd # "no"])
Drain(c) == /\ Live(c) /\ cs[c].wr
            /\ Set(c, [cs[c] EXCEPT !.wr = FALSE]) /\ Log([a |-> "drain", c |-> c])

(* ----- the user of the connection *)
Read(c) == /\ Up(c) /\ cs[c].rd = "no" /\ cs[c].in # <<>>
           /\ Set(c, [cs[c] EXCEPT !.in = Tail(@)]) /\ Log([a |-> "read", c |-> c, id |-> Head(cs[c].in)])
ReadEnd(c) == /\ Up(c) /\ cs[c].gone /\ cs[c].in = <<>>
              /\ Set(c, [cs[c] EXCEPT !.ph = "broken"]) /\ Log([a |-> "end", c |-> c])
ReadWait(c, w) == /\ Live(c) /\ cs[c].rd = "no" /\ cs[c].in = <<>>
                  /\ Set(c, [cs[c] EXCEPT !.rd = "one", !.rw = w, !.rl = w]) /\ Log([a |-> "wait", c |-> c, w |-> w])
ReadTwo(c) == /\ Live(c) /\ cs[c].rd = "no" /\ Len(cs[c].in) < 2 /\ cs[c].n + 2 - Len(cs[c].in) <= MaxBlocks
              /\ Set(c, [cs[c] EXCEPT !.rd = "two", !.rw = 0, !.rl = 0]) /\ Log([a |-> "wait2", c |-> c, in |-> cs[c].in, n |-> cs[c].n])
Write(c) == /\ Live(c) /\ ~cs[c].wr /\ cs[c].m < MaxBlocks
            /\ Set(c, [cs[c] EXCEPT !.m = @ + 1]) /\ Log([a |-> "write", c |-> c])
(* more than the network holds, to a peer that does not read *)
Pour(c, w) == /\ Live(c) /\ ~cs[c].wr /\ cs[c].m < MaxBlocks /\ cs[c].k # "srt"
              /\ Set(c, [cs[c] EXCEPT !.wr = TRUE, !.wl = w, !.m = @ + 1]) /\ Log([a |-> "pour", c |-> c, w |-> w])
(* (with nothing unread, or TCP itself may take back what was written) *)
Close(c) == /\ cs[c].ph \in {"up", "broken"} /\ cs[c].rd = "no" /\ ~cs[c].wr /\ (Live(c) => cs[c].in = <<>> /\ ~cs[c].part)
            /\ Set(c, [cs[c] EXCEPT !.ph = "closed"]) /\ Log([a |-> "close", c |-> c, tell |-> Live(c)])

(* ----- time *)
Tick == LET dl == {c \in C : cs[c].ph = "dial" /\ cs[c].quiet + 1 = cs[c].tm}
            rl == {c \in C : cs[c].rd # "no" /\ cs[c].rl = 1}
            wl == {c \in C : cs[c].wr /\ cs[c].wl = 1}
            Step(c, r) == [r EXCEPT !.ph = IF c \in dl THEN "failed" ELSE IF c \in wl THEN "broken" ELSE @,
                                    !.quiet = IF r.ph = "dial" THEN @ + 1 ELSE @,
                                    !.rd = IF c \in rl \cup wl THEN "no" ELSE @, !.rl = IF @ > 0 THEN @ - 1 ELSE 0,
                                    !.wr = IF c \in wl THEN FALSE ELSE @, !.wl = IF @ > 0 THEN @ - 1 ELSE 0]
        IN /\ \E c \in C : cs[c].ph = "dial" \/ cs[c].rd # "no" \/ cs[c].wr
           \* a write given up while a read waits: the read is given up with it
           /\ \A c \in wl : cs[c].rd = "no"
           /\ cs' = [c \in C |-> Step(c, cs[c])]
           /\ Log([a |-> "tick", dl |-> dl, rl |-> rl, wl |-> wl])

Next == /\ Len(hist) < MaxHist
        /\ \/ \E k \in Kinds, m \in {"open", "refuse", "reject", "silent"}, w \in Limits : Dial(k, m, w)
           \/ \E c \in C : \/ \E how \in {"part", "rest", "glued"} : Give(c, how)
                           \/ \E how \in {"garbage", "alert", "close"} : Spoil(c, how)
                           \/ Send(c) \/ SendPart(c) \/ Leave(c) \/ Drain(c) \/ Read(c) \/ ReadEnd(c) \/ ReadTwo(c) \/ Write(c) \/ Close(c)
                           \/ \E w \in {0} \cup Limits : ReadWait(c, w)
                           \/ \E w \in {0, 1} : Pour(c, w)
           \/ Tick
Spec == Init /\ [][Next]_vars

(* ----- what must hold *)
Ids(r) == {r.in[i] : i \in 1..Len(r.in)}
(* what is not read yet are the last blocks sent, in order *)
InOrder == \A c \in C : \A i \in 1..Len(cs[c].in) : cs[c].in[i] = cs[c].n - Len(cs[c].in) + i
(* a TLS connection has seen both flights of its peer before anything else *)
Shaken == \A c \in C : cs[c].k = "tls" /\ (cs[c].ph = "up" \/ cs[c].n > 0) => cs[c].hs = 2
(* nothing waits for longer than it was to, nothing waits on what is over *)
InTime == \A c \in C : (cs[c].ph = "dial" => cs[c].quiet < cs[c].tm) /\ (cs[c].ph # "up" => cs[c].rd = "no" /\ ~cs[c].wr)
(* a read does not wait for what is there, or for a peer that has left *)
Awake == \A c \in C : cs[c].rd # "no" => ~cs[c].gone /\ Len(cs[c].in) < (IF cs[c].rd = "one" THEN 1 ELSE 2)
Emit == PrintT("B:" \o ToJson(hist'))
EmitEnd == Len(hist') = MaxHist => Emit
=============================================================================
