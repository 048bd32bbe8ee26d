------------------------------- MODULE File -------------------------------
(* B03: a file and the handle through which it is read and written.  The     *)
(* bytes are what the k-th write put there; "n" stands for a newline, "a"    *)
(* for a run of others.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Texts,    \* what is written, and what the file holds at first: sequences of "a", "n"
          Sizes,    \* how much is read at once
          MaxHist
VARIABLES there,    \* the file exists
          body,     \* its bytes: <<write, index, "a" or "n">>
          open,     \* "no", "plain", "trunc", "app"
          pos,      \* of the handle
          line,     \* lines read since it was opened
          last,     \* the kind of handle there is: "no", "plain", "trunc", "app"
          past,     \* what the handle has been through: <<lines were read before it was opened again, the end was reached>>
          k, hist
vars == <<there, body, open, pos, line, last, past, k, hist>>
View == <<there, [i \in 1..Len(body) |-> body[i][3]], open, pos, line, last, past, Len(hist)>>

Of(w, t) == [i \in 1..Len(t) |-> <<w, i, t[i]>>]
Init == /\ there \in BOOLEAN
        /\ \E t \in Texts \cup {<<>>} : body = IF there THEN Of(0, t) ELSE <<>>
        /\ open = "no" /\ pos = 0 /\ line = 0 /\ last = "no" /\ past = <<FALSE, FALSE>> /\ k = 0
        /\ hist = << [a |-> "File", ok |-> there, v |-> body] >>
Log(r) == hist' = Append(hist, r)
Min(a, b) == IF a < b THEN a ELSE b
Left == Len(body) - pos

(* with a new handle or, once more, with the one there is *)
Open(m, again) ==
           /\ open = "no" /\ (again => last = m)
           /\ LET ok == there \/ m # "plain" IN
              /\ Log([a |-> "Open", m |-> m, ok |-> ok, again |-> again])
              /\ last' = m /\ past' = <<again /\ past[1], FALSE>>
              /\ there' = ok
              /\ open' = IF ok THEN m ELSE "no"
              /\ body' = IF m = "trunc" THEN <<>> ELSE body
              /\ pos' = 0 /\ line' = 0
           /\ UNCHANGED k
(* closed, or given up: the file holds what was written *)
Close(how) == /\ open # "no"
              /\ open' = "no" /\ pos' = 0 /\ line' = 0
              /\ Log([a |-> "Close", m |-> how, v |-> body])
              /\ last' = IF how = "drop" THEN "no" ELSE last
              /\ past' = <<how = "close" /\ (past[1] \/ line > 0), FALSE>>
              /\ UNCHANGED <<there, body, k>>
Write(t) == /\ open # "no"
            /\ LET at == IF open = "app" THEN Len(body) ELSE pos
                   w == Of(k + 1, t) IN
               /\ body' = SubSeq(body, 1, at) \o w \o SubSeq(body, at + Len(t) + 1, Len(body))
               /\ pos' = at + Len(t)
               /\ Log([a |-> "Write", v |-> w])
            /\ k' = k + 1 /\ past' = <<past[1], FALSE>>
            /\ UNCHANGED <<there, open, line, last>>
(* some of what follows, no more than asked for; the end only at the end *)
Read(n) == /\ open # "no"
           /\ Log([a |-> "Read", v |-> SubSeq(body, pos + 1, pos + Min(n, Left)), more |-> n > Left])
           /\ pos' = pos + Min(n, Left) /\ past' = <<past[1], past[2] \/ n > Left>>
           /\ UNCHANGED <<there, body, open, line, last, k>>
(* all of it, or the end *)
Fully(n) == /\ open # "no"
            /\ Log([a |-> "Fully", ok |-> n <= Left, v |-> SubSeq(body, pos + 1, pos + Min(n, Left))])
            /\ pos' = pos + Min(n, Left) /\ past' = <<past[1], past[2] \/ n > Left>>
            /\ UNCHANGED <<there, body, open, line, last, k>>
Ends == {i \in pos + 1..Len(body) : body[i][3] = "n"}
LineEnd == IF Ends = {} THEN Len(body) + 1 ELSE CHOOSE i \in Ends : \A j \in Ends : i <= j
Line == /\ open # "no"
        /\ IF Left = 0 THEN Log([a |-> "Line", ok |-> FALSE, v |-> <<>>, num |-> line]) /\ UNCHANGED <<pos, line>>
           ELSE /\ Log([a |-> "Line", ok |-> TRUE, v |-> SubSeq(body, pos + 1, LineEnd - 1), num |-> line + 1])
                /\ pos' = Min(LineEnd, Len(body)) /\ line' = line + 1
        /\ past' = <<past[1], past[2] \/ Ends = {}>>
        /\ UNCHANGED <<there, body, open, last, k>>

Next == /\ Len(hist) <= MaxHist
        /\ \/ \E m \in {"plain", "trunc", "app"}, again \in BOOLEAN : Open(m, again)
           \/ \E h \in {"close", "drop"} : Close(h)
           \/ \E t \in Texts : Write(t)
           \/ \E n \in Sizes : Read(n) \/ Fully(n)
           \/ Line
Spec == Init /\ [][Next]_vars

InFile  == pos <= Len(body)
Missing == ~there => (body = <<>> /\ open = "no")
Emit == PrintT("B:" \o ToJson([h |-> hist']))
EmitEnd == Len(hist') > MaxHist => PrintT("B:" \o ToJson([h |-> hist']))
=============================================================================
