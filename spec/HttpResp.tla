------------------------------ MODULE HttpResp ------------------------------
(* A response as it must appear on the connection: m says what was asked for  *)
(*   m.status, m.cl (-1: none), m.chunked, m.headers (sequence of [k, w]),    *)
(*   m.writes: sequence of body writes (an empty write of a chunked response  *)
(*   ends the body), m.explicit: the head was written by itself first         *)
(* and out is the bytes that were written.                                    *)
EXTENDS Ascii, Integers
H == INSTANCE HttpHead
B == INSTANCE HttpBody
Server == <<115,101,114,118,101,114>>
Framing == {H!ContentLength, H!TransferEncoding}
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o Join(Tail(ws))
Others(hs) == SelectSeq(hs, LAMBDA h : LowAll(h.k) \notin Framing)
Count(hs, n) == Len(SelectSeq(hs, LAMBDA h : LowAll(h.k) = n))
BigHead == 100000

(* headers other than framing: all the supplied ones in order, and a Server   *)
(* line only where none was supplied                                          *)
Carried(m, hs) ==
  LET given == Others(m.headers)
      sent  == Others(hs)
  IN IF Count(given, Server) > 0 THEN sent = given
     ELSE SelectSeq(sent, LAMBDA h : LowAll(h.k) # Server) = given /\ Count(sent, Server) <= 1

Valid(m, out) ==
  IF m.writes = <<>> /\ ~m.explicit THEN out = <<>>
  ELSE
  LET p == H!Parse(FALSE, out, BigHead) IN
  /\ p.v = "msg"
  /\ p.status = m.status
  /\ Carried(m, p.headers)
  /\ LET body == From(out, p.used + 1)
         data == Join(m.writes)
     IN IF m.chunked
        THEN /\ p.chunked /\ p.cl = <<>>
             (* a body not yet ended must be one that its last chunk completes *)
             /\ LET ended == m.writes # <<>> /\ m.writes[Len(m.writes)] = <<>>
                    wire  == IF ended THEN body ELSE body \o B!LastChunk
                    d     == B!Deframe("chunked", 0, wire)
                IN d.v = "end" /\ d.body = data /\ d.used = Len(wire)
        ELSE IF m.cl >= 0
        THEN /\ ~p.chunked /\ p.cl = ToDec(m.cl)
             /\ body = data
        ELSE /\ ~p.chunked /\ p.cl = <<>>
             /\ body = data
=============================================================================
