------------------------------ MODULE Buffers ------------------------------
(* The byte writer, the packet buffer and the memory reader, one at a time.   *)
(*  "w": writer over Cap bytes; "c": packet buffer of Cap bytes with a head;  *)
(*  "m": memory reader over a text (sequence of "a" and newline);             *)
(*  "s": exact reads from a connection that gives Cap bytes, in pieces.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS What, Cap, Heads, Sizes, Texts, MaxHist
VARIABLES pos, head, text, line, hist
vars == <<pos, head, text, line, hist>>
View == <<pos, head, text, line>>

Init == /\ head \in Heads /\ text \in Texts /\ pos = 0 /\ line = 0 /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Min(a, b) == IF a < b THEN a ELSE b

(* writer and packet buffer *)
Ask(n)  == /\ What = "w" /\ Log([a |-> "Acquire", n |-> n, ok |-> n <= Cap - pos]) /\ UNCHANGED <<pos, head, text, line>>
Put(op, n) == /\ What \in {"w", "c"} /\ n <= Cap - pos
              /\ pos' = pos + n
              /\ Log([a |-> op, n |-> n, at |-> pos])
              /\ UNCHANGED <<head, text, line>>

(* memory reader *)
Len2 == Len(text)
Ends(p) == {i \in p + 1..Len2 : text[i] = "n"}
LineEnd(p) == IF Ends(p) = {} THEN Len2 + 1 ELSE CHOOSE i \in Ends(p) : \A j \in Ends(p) : i <= j
ReadLine == /\ What = "m"
            /\ IF pos >= Len2
               THEN Log([a |-> "Line", ok |-> FALSE, from |-> pos, n |-> 0, num |-> line]) /\ UNCHANGED <<pos, line>>
               ELSE LET e == LineEnd(pos) IN
                    /\ Log([a |-> "Line", ok |-> TRUE, from |-> pos, n |-> e - 1 - pos, num |-> line + 1])
                    /\ pos' = Min(e, Len2) /\ line' = line + 1
            /\ UNCHANGED <<head, text>>
Read(n) == /\ What = "m" /\ n > 0
           /\ Log([a |-> "Read", ok |-> pos < Len2, from |-> pos, n |-> Min(n, Len2 - pos), ask |-> n])
           /\ pos' = pos + Min(n, Len2 - pos)
           /\ UNCHANGED <<head, text, line>>
Fully(n) == /\ What = "m" /\ n > 0
            /\ Log([a |-> "Fully", ok |-> n <= Len2 - pos, from |-> pos, n |-> n])
            /\ pos' = IF n <= Len2 - pos THEN pos + n ELSE pos
            /\ UNCHANGED <<head, text, line>>

(* all n bytes or, with the end of the connection, what there was *)
Whole(n) == /\ What = "s" /\ n > 0
            /\ Log([a |-> "Whole", ok |-> n <= Cap - pos, from |-> pos, n |-> Min(n, Cap - pos), ask |-> n])
            /\ pos' = Min(pos + n, Cap)
            /\ UNCHANGED <<head, text, line>>
Some(n) == /\ What = "s" /\ n > 0 /\ pos < Cap
           /\ Log([a |-> "Some", ok |-> TRUE, from |-> pos, n |-> 1, ask |-> 1])
           /\ pos' = pos + 1
           /\ UNCHANGED <<head, text, line>>

Next == /\ Len(hist) < MaxHist
        /\ \/ \E n \in Sizes : Ask(n) \/ Put("Bytes", n) \/ Put("Skip", n) \/ Read(n) \/ Fully(n) \/ Whole(n)
           \/ Some(1)
           \/ \E n \in 1..4 : What = "w" /\ Put("Int", n)
           \/ ReadLine
Spec == Init /\ [][Next]_vars
InBounds == pos <= (IF What = "m" THEN Len2 ELSE Cap)
Emit == PrintT("B:" \o ToJson([head |-> head, text |-> text, h |-> hist']))
=============================================================================
