------------------------------- MODULE UrlGen -------------------------------
(* All small URLs put together from parts; decomposition recovers the parts.  *)
EXTENDS Url, TLC, Json
CONSTANTS Schemes, Hosts, Ports, Segs, Pieces, Frags, MaxSegs, MaxPieces
VARIABLES x
Init == x \in [s : Schemes, h : Hosts, p : Ports, segs : {<<>>}, ps : {<<>>}, f : Frags]
Next == \/ Len(x.segs) < MaxSegs /\ x.ps = <<>> /\ \E g \in Segs : x' = [x EXCEPT !.segs = Append(@, g)]
        \/ x.segs # <<>> /\ Len(x.ps) < MaxPieces /\ \E g \in Pieces : x' = [x EXCEPT !.ps = Append(@, g)]
Spec == Init /\ [][Next]_x
RECURSIVE Path(_)
Path(s) == IF s = <<>> THEN <<>> ELSE <<47>> \o Head(s) \o Path(Tail(s))
RECURSIVE Query(_)
Query(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o (IF Len(s) > 1 THEN <<38>> \o Query(Tail(s)) ELSE <<>>)
Text(y) == y.s \o <<58, 47, 47>> \o y.h \o y.p \o Path(y.segs) \o (IF y.ps = <<>> THEN <<>> ELSE <<63>> \o Query(y.ps)) \o y.f
BadPort(p) == p # <<>> /\ (~All(From(p, 2), Digit) \/ Dec(From(p, 2)) > 65535)
Recovered ==
  LET d == Decompose(Text(x)) IN
  /\ (x.h = <<>> /\ (x.f = <<>> \/ x.segs # <<>>) /\ x.s # <<>> /\ All(x.s, Lower)) => d.v = "fail"
  /\ (BadPort(x.p) /\ (x.f = <<>> \/ x.segs # <<>>) /\ x.h # <<>> /\ All(x.s, Lower) /\ x.s # <<>>) => d.v = "fail"
  /\ d.v = "url" => /\ d.scheme = x.s /\ d.host = x.h /\ d.path = Path(x.segs)
                    /\ d.query = Query(x.ps)
                    /\ d.port = (IF x.p = <<>> THEN DefaultPort(x.s) ELSE Dec(From(x.p, 2)))
                    /\ (~ParamsOpen(d.query) => Len(d.params) = Len(x.ps))
                    /\ \A i \in 1..Len(x.ps) : Param(x.ps[i]).k # <<>> =>
                          Lookup(d.params, Param(x.ps[i]).k) = Param(SelectSeq(x.ps, LAMBDA q : Param(q).k = Param(x.ps[i]).k)[1]).w
Emit == PrintT("B:" \o ToJson([u |-> Text(x')]))
=============================================================================
