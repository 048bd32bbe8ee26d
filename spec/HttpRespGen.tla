---------------------------- MODULE HttpRespGen ----------------------------
(* All small responses.  A reference rendering satisfies Valid (so the        *)
(* property can be met), and Valid refuses renderings with another framing or *)
(* a header more or less.  Every response is emitted for the real writer.     *)
EXTENDS HttpResp, TLC, Json
CONSTANTS Statuses, Pool, Writes, MaxHeaders, MaxWrites
VARIABLES m
Sum(ws) == Len(Join(ws))
Init == m \in [status : Statuses, cl : {-1, 0}, chunked : BOOLEAN, headers : {<<>>}, writes : {<<>>}, explicit : BOOLEAN]
        /\ (m.chunked => m.cl = -1)
SetCl(x) == IF x.cl >= 0 THEN [x EXCEPT !.cl = Sum(x.writes)] ELSE x
Next == \/ /\ Len(m.headers) < MaxHeaders /\ m.writes = <<>>
           /\ \E h \in Pool : m' = [m EXCEPT !.headers = Append(@, h)]
        \/ /\ Len(m.writes) < MaxWrites
           /\ IF m.chunked /\ m.writes # <<>> THEN m.writes[Len(m.writes)] # <<>> ELSE TRUE
           /\ \E w \in Writes : m' = SetCl([m EXCEPT !.writes = Append(@, w)])
Spec == Init /\ [][Next]_m

Crlf == <<CR, LF>>
Line(k, w) == k \o <<58, SP>> \o w \o Crlf
CL == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104>>
TE == <<84,114,97,110,115,102,101,114,45,69,110,99,111,100,105,110,103>>
RECURSIVE Lines(_)
Lines(hs) == IF hs = <<>> THEN <<>> ELSE Line(Head(hs).k, Head(hs).w) \o Lines(Tail(hs))
Top(x) == <<72,84,84,80,47,49,46,49,32>> \o ToDec(x.status) \o <<SP, 88>> \o Crlf
Frame(x) == IF x.chunked THEN Line(TE, H!Chunked) ELSE IF x.cl >= 0 THEN Line(CL, ToDec(x.cl)) ELSE <<>>
RECURSIVE BodyOf(_)
BodyOf(x) == IF ~x.chunked THEN Join(x.writes)
             ELSE IF x.writes = <<>> THEN <<>>
             ELSE B!ChunkOf(Head(x.writes)) \o BodyOf([x EXCEPT !.writes = Tail(@)])
Render(x, extra) == Top(x) \o Frame(x) \o extra \o Lines(Others(x.headers)) \o Crlf \o BodyOf(x)
Sound == (m.writes # <<>> \/ m.explicit) => Valid(m, Render(m, <<>>))
Strict == (m.writes # <<>> \/ m.explicit) =>
            /\ ~Valid(m, Render(m, Line(CL, <<55>>)))
            /\ ~Valid(m, Render(m, Line(<<90>>, <<90>>)))
            /\ (m.chunked => ~Valid(m, Render([m EXCEPT !.chunked = FALSE], <<>>)))
            /\ (~m.chunked /\ m.cl >= 0 => ~Valid(m, Render(m, <<>>) \o <<65>>))
            /\ (Others(m.headers) # <<>> => ~Valid(m, Render([m EXCEPT !.headers = SelectSeq(@, LAMBDA h : LowAll(h.k) \in Framing)], <<>>)))
Emit == PrintT("B:" \o ToJson([m |-> m']))
=============================================================================
