---------------------------- MODULE HttpHeadGen ----------------------------
(* All small heads: the specification parses what it renders, every strict    *)
(* prefix of a head is a failure, what follows the head changes nothing; each *)
(* head is emitted and offered to the real parser.                            *)
EXTENDS HttpHead, TLC, Json
CONSTANTS Firsts,      \* records [req, line]: first lines
          Pool,        \* header lines
          Rests,       \* bytes after the head
          MaxHeaders
VARIABLES first, hs
vars == <<first, hs>>
Crlf == <<CR, LF>>
Init == first \in Firsts /\ hs = <<>>
Next == /\ Len(hs) < MaxHeaders
        /\ \E h \in Pool : hs' = Append(hs, h)
        /\ UNCHANGED first
Spec == Init /\ [][Next]_vars
RECURSIVE Cat(_)
Cat(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o Crlf \o Cat(Tail(ls))
Text == first.line \o Crlf \o Cat(hs) \o Crlf
P(t) == Parse(first.req, t, MaxHead)
Whole == LET p == P(Text) IN p.v = "msg" =>
           /\ p.used = Len(Text)
           /\ Len(p.headers) = Len(hs)
           /\ \A r \in Rests : P(Text \o r) = p
           /\ \A c \in 0..(Len(Text) - 1) : P(SubSeq(Text, 1, c)).v \in {"fail", "any"}
Never == P(Text).v # "msg" => \A r \in Rests : P(Text \o r).v # "msg"
Emit == PrintT("B:" \o ToJson([req |-> first.req, text |-> first.line \o Crlf \o Cat(hs') \o Crlf]))
=============================================================================
