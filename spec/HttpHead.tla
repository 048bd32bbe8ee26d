------------------------------ MODULE HttpHead ------------------------------
(* What the bytes of a connection mean as an HTTP/1.1 request or response     *)
(* head.  Parse gives v = "msg" with everything the head says, v = "fail" for *)
(* what must be reported as a failure, v = "any" where the specification does *)
(* not decide (deviations that some parsers tolerate, and forms the product   *)
(* does not promise: absolute targets, requests without Host, folded lines).  *)
EXTENDS Ascii
MaxHead == 2048

ContentLength == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
TransferEncoding == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
HostName == <<104,111,115,116>>
Chunked == <<99,104,117,110,107,101,100>>
HTTPslash == <<72,84,84,80,47>>
Versions == {<<72,84,84,80,47,49,46,49>>, <<72,84,84,80,47,49,46,48>>}
Methods == {<<71,69,84>>, <<80,79,83,84>>, <<80,85,84>>, <<72,69,65,68>>, <<68,69,76,69,84,69>>, <<79,80,84,73,79,78,83>>, <<80,65,84,67,72>>}

(* index of the last byte of the blank line, 0 if there is none within n bytes *)
EndAt(b, n) ==
  LET es == {i \in 4..(IF Len(b) < n THEN Len(b) ELSE n) : b[i] = LF /\ b[i-1] = CR /\ b[i-2] = LF /\ b[i-3] = CR}
  IN IF es = {} THEN 0 ELSE Min(es)
(* a line end that is not CR LF, or a stray CR or LF *)
Bare(b, e) == \/ \E i \in At(SubSeq(b, 1, e), LF) : i = 1 \/ b[i - 1] # CR
              \/ \E i \in At(SubSeq(b, 1, e), CR) : i < e /\ b[i + 1] # LF

Lines(b, e) ==   \* the lines of a head that ends at e, without their CR LF; the blank line is left out
  LET ps == SetToSortSeq(At(SubSeq(b, 1, e), CR), <)
  IN [k \in 1..(Len(ps) - 1) |-> SubSeq(b, IF k = 1 THEN 1 ELSE ps[k - 1] + 2, ps[k] - 1)]

Fail == [v |-> "fail"]
Open == [v |-> "any"]

TargetChar(c) == Digit(c) \/ Alpha(c) \/ c \in {33, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 61, 63, 64, 95, 126}
ValueChar(c) == c \in 32..126 \/ c = HT
HostChar(c) == Digit(c) \/ Alpha(c) \/ c = 46 \/ c = 45

(* a header line: "fail" | "any" | [k, v] *)
HeadLine(l) ==
  LET cs == At(l, 58) IN
  IF l = <<>> THEN Open
  ELSE IF l[1] \in {SP, HT} THEN Open
  ELSE IF cs = {} THEN Fail
  ELSE LET k == SubSeq(l, 1, Min(cs) - 1)
           w == TrimL(From(l, Min(cs) + 1), {SP, HT})
       IN IF k = <<>> THEN Fail
          ELSE IF ~All(k, TChar) THEN (IF \E i \in 1..Len(k) : k[i] \in {SP, HT} \/ k[i] > 127 THEN Open ELSE Fail)
          ELSE IF ~All(w, ValueChar) THEN Open
          ELSE IF w # <<>> /\ w[Len(w)] \in {SP, HT} THEN Open
          ELSE [v |-> "ok", k |-> k, w |-> w]

Named(hs, name) == SelectSeq(hs, LAMBDA h : LowAll(h.k) = name)

Framing(hs) ==   \* [v, cl, chunked]: cl is <<>> when absent
  LET c == Named(hs, ContentLength)
      t == Named(hs, TransferEncoding)
  IN IF Len(c) > 1 \/ Len(t) > 1 \/ (c # <<>> /\ t # <<>>) THEN Open
     ELSE IF c # <<>> THEN (IF c[1].w = <<>> THEN Open
                            ELSE IF ~All(c[1].w, Digit) THEN (IF \E i \in 1..Len(c[1].w) : c[1].w[i] = SP THEN Open ELSE Fail)
                            ELSE IF Len(Canon(c[1].w)) > 18 THEN Open
                            ELSE [v |-> "ok", cl |-> Canon(c[1].w), chunked |-> FALSE])
     ELSE IF t # <<>> THEN (IF LowAll(t[1].w) = Chunked THEN [v |-> "ok", cl |-> <<>>, chunked |-> TRUE] ELSE Open)
     ELSE [v |-> "ok", cl |-> <<>>, chunked |-> FALSE]

HostPort(w) ==   \* value of Host -> [v, host, port]
  LET p == Split(w, 58) IN
  IF w = <<>> \/ Len(p) > 2 \/ p[1] = <<>> \/ ~All(p[1], HostChar) \/ ~(Alpha(p[1][1]) \/ Digit(p[1][1])) THEN Open
  ELSE IF Len(p) = 1 THEN [v |-> "ok", host |-> p[1], port |-> 80]
  ELSE IF p[2] = <<>> \/ ~All(p[2], Digit) \/ Len(p[2]) > 5 \/ Dec(p[2]) > 65535 \/ Dec(p[2]) = 0 \/ p[2][1] = 48 THEN Open
  ELSE [v |-> "ok", host |-> p[1], port |-> Dec(p[2])]

Target(t) ==     \* origin form only -> [v, path, query]
  IF t = <<>> \/ t[1] # 47 \/ ~All(t, TargetChar) THEN Open
  ELSE LET q == At(t, 63) IN
       IF q = {} THEN [v |-> "ok", path |-> t, query |-> <<>>]
       ELSE IF Min(q) = Len(t) THEN Open      \* an empty query
       ELSE [v |-> "ok", path |-> SubSeq(t, 1, Min(q) - 1), query |-> From(t, Min(q) + 1)]

(* the first line *)
ReqLine(l) ==
  LET p == Split(l, SP) IN
  IF Len(p) = 1 THEN Fail
  ELSE IF p[1] = <<>> \/ \E i \in 1..Len(p[1]) : ~(Upper(p[1][i]) \/ p[1][i] = 45) THEN Fail
  ELSE IF Len(p) # 3 THEN Open
  ELSE IF Len(p[3]) < 5 \/ SubSeq(p[3], 1, 5) # HTTPslash THEN (IF p[3] = <<>> THEN Open ELSE IF p[3][1] = 72 THEN Open ELSE Fail)
  ELSE IF p[1] \notin Methods \/ p[3] \notin Versions THEN Open
  ELSE LET t == Target(p[2]) IN
       IF t.v # "ok" THEN t ELSE [v |-> "ok", method |-> p[1], target |-> p[2], path |-> t.path, query |-> t.query]
RspLine(l) ==
  IF Len(l) < 5 \/ SubSeq(l, 1, 5) # HTTPslash THEN (IF l # <<>> /\ l[1] = 72 THEN Open ELSE Fail)
  ELSE IF Len(l) < 13 \/ SubSeq(l, 1, 8) \notin Versions \/ l[9] # SP THEN Open
  ELSE IF ~All(SubSeq(l, 10, 12), Digit) THEN (IF l[10] = SP \/ Digit(l[10]) THEN Open ELSE Fail)
  ELSE IF l[13] # SP \/ l[10] = 48 \/ ~All(l, ValueChar) THEN Open
  ELSE [v |-> "ok", status |-> Dec(SubSeq(l, 10, 12))]

Worst(vs) == IF \E i \in 1..Len(vs) : vs[i].v = "any" THEN "any" ELSE IF \E i \in 1..Len(vs) : vs[i].v = "fail" THEN "fail" ELSE "ok"

Parse(req, b, maxhead) ==
  LET e == EndAt(b, maxhead) IN
  IF e = 0 THEN (IF Bare(b, IF Len(b) < maxhead THEN Len(b) ELSE maxhead) THEN Open ELSE Fail)
  ELSE IF Bare(b, e) THEN Open
  ELSE LET ls == Lines(b, e) IN
       IF ls[1] = <<>> THEN (IF Len(ls) = 1 THEN Fail ELSE Open)
       ELSE LET first == IF req THEN ReqLine(ls[1]) ELSE RspLine(ls[1])
                hl    == [i \in 1..(Len(ls) - 1) |-> HeadLine(ls[i + 1])]
                w     == Worst(<<first>> \o hl)
            IN IF w = "any" THEN Open
               ELSE IF w = "fail" THEN Fail
               ELSE LET hs == [i \in 1..Len(hl) |-> [k |-> hl[i].k, w |-> hl[i].w]]
                        f  == Framing(hs)
                        hn == Named(hs, HostName)
                        hp == IF ~req THEN [v |-> "ok"] ELSE IF Len(hn) # 1 THEN Open ELSE HostPort(hn[1].w)
                    IN IF f.v # "ok" \/ hp.v # "ok" THEN [v |-> IF hp.v = "any" \/ f.v = "any" THEN "any" ELSE "fail"]
                       ELSE IF req
                       THEN [v |-> "msg", used |-> e, method |-> first.method, target |-> first.target, path |-> first.path, query |-> first.query,
                             host |-> hp.host, port |-> hp.port, headers |-> hs, cl |-> f.cl, chunked |-> f.chunked]
                       ELSE [v |-> "msg", used |-> e, status |-> first.status, headers |-> hs, cl |-> f.cl, chunked |-> f.chunked]
=============================================================================
