---------------------------- MODULE HttpBodyGen ----------------------------
(* All small chunked bodies: de-framing inverts framing, every strict prefix  *)
(* is an error, what follows is not touched; each is emitted.                 *)
EXTENDS HttpBody, TLC, Json
CONSTANTS Sizes, Exts, Zeros, Rests, MaxChunks
VARIABLES cs
Fill(n, k) == [i \in 1..n |-> (i * 29 + k * 71) % 256]
Init == cs = <<>>
Next == /\ Len(cs) < MaxChunks
        /\ \E n \in Sizes, e \in Exts, z \in Zeros : cs' = Append(cs, [n |-> n, e |-> e, z |-> z])
Spec == Init /\ [][Next]_cs
Line(c) == [i \in 1..c.z |-> 48] \o ToHex(c.n) \o c.e \o <<CR, LF>>
RECURSIVE Wire(_, _)
Wire(s, k) == IF s = <<>> THEN <<>> ELSE Line(Head(s)) \o Fill(Head(s).n, k) \o <<CR, LF>> \o Wire(Tail(s), k + 1)
RECURSIVE Body(_, _)
Body(s, k) == IF s = <<>> THEN <<>> ELSE Fill(Head(s).n, k) \o Body(Tail(s), k + 1)
Bytes(s) == Wire(s, 1) \o LastChunk
Unframes == \A r \in Rests : Deframe("chunked", 0, Bytes(cs) \o r) = [v |-> "end", body |-> Body(cs, 1), used |-> Len(Bytes(cs))]
Prefix == \A k \in 0..(Len(Bytes(cs)) - 1) :
            LET d == Deframe("chunked", 0, SubSeq(Bytes(cs), 1, k))
            IN d.v = "error" /\ d.body = SubSeq(Body(cs, 1), 1, Len(d.body))
Emit == PrintT("B:" \o ToJson([bytes |-> Bytes(cs')]))
=============================================================================
