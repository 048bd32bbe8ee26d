-------------------------------- MODULE Url --------------------------------
(* scheme://host[:port][/path][?query][#fragment] for network schemes         *)
EXTENDS Ascii
HTTP == <<104,116,116,112>>
HTTPS == <<104,116,116,112,115>>
RTMP == <<114,116,109,112>>
DefaultPort(s) == CASE s = HTTP -> 80 [] s = HTTPS -> 443 [] s = RTMP -> 1935 [] OTHER -> 0
Open == [v |-> "any"]
Fail == [v |-> "fail"]
HostChar(c) == Digit(c) \/ Alpha(c) \/ c = 46 \/ c = 45
PathChar(c) == Digit(c) \/ Alpha(c) \/ c \in {33, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 61, 64, 95, 126}
QueryChar(c) == PathChar(c) \/ c = 63

(* query parameters in order: pieces between '&', key up to the first '=';   *)
(* a piece without '=' is a key with an empty value, empty pieces are none   *)
Param(p) == LET e == At(p, 61) IN
  IF e = {} THEN [k |-> p, w |-> <<>>] ELSE [k |-> SubSeq(p, 1, Min(e) - 1), w |-> From(p, Min(e) + 1)]
Params(q) == LET ps == SelectSeq(Split(q, 38), LAMBDA p : p # <<>>) IN [i \in 1..Len(ps) |-> Param(ps[i])]
Lookup(ps, key) == LET m == SelectSeq(ps, LAMBDA p : p.k = key) IN IF m = <<>> THEN <<>> ELSE m[1].w
ParamsOpen(q) == q # <<>> /\ \E i \in 1..Len(Split(q, 38)) : Split(q, 38)[i] = <<>>    \* empty pieces: not decided
(* header names are compared without regard to case *)
LookupFold(hs, key) == LET m == SelectSeq(hs, LAMBDA h : LowAll(h.k) = LowAll(key)) IN IF m = <<>> THEN <<>> ELSE m[1].w
(* extension: after the last dot; a dot in a directory name is left open *)
Ext(path) == LET d == At(path, 46) IN IF d = {} THEN <<>> ELSE From(path, Max(d) + 1)
ExtOpen(path) == At(Ext(path), 47) # {}

Decompose(u) ==
  LET c == {i \in 1..(Len(u) - 2) : u[i] = 58 /\ u[i + 1] = 47 /\ u[i + 2] = 47}
      s == IF c = {} THEN <<>> ELSE SubSeq(u, 1, Min(c) - 1)
  IN IF u = <<>> THEN Fail
     ELSE IF \E i \in 1..Len(u) : u[i] <= 32 \/ u[i] = 127 THEN (IF \A i \in 1..Len(u) : u[i] \in {0, 9, 12} \/ (u[i] > 32 /\ u[i] # 127) THEN Open ELSE Fail)
     ELSE IF u[1] = 42 THEN Open
     ELSE IF c = {} \/ s = <<>> THEN (IF s = <<>> /\ c # {} THEN Fail ELSE Open)      \* "://x"; no scheme: not decided
     ELSE IF ~All(s, Alpha) THEN (IF \E i \in 1..Len(s) : s[i] \in {47, 63, 35} THEN Open ELSE IF All(s, LAMBDA x : Alpha(x) \/ Digit(x) \/ x \in {43, 45, 46}) THEN Open ELSE Fail)
     ELSE IF ~All(s, Lower) \/ s = <<102,105,108,101>> THEN Open     \* case of the scheme, file: not decided
     ELSE LET r  == From(u, Min(c) + 3)
              e  == {i \in 1..Len(r) : r[i] \in {47, 63, 35}}
              au == IF e = {} THEN r ELSE SubSeq(r, 1, Min(e) - 1)
              t  == IF e = {} THEN <<>> ELSE From(r, Min(e))
              f  == At(t, 35)
              pq == IF f = {} THEN t ELSE SubSeq(t, 1, Min(f) - 1)
              qs == At(pq, 63)
              pa == IF qs = {} THEN pq ELSE SubSeq(pq, 1, Min(qs) - 1)
              qu == IF qs = {} THEN <<>> ELSE From(pq, Min(qs) + 1)
              hp == Split(au, 58)
          IN IF pa = <<>> /\ f # {} THEN Open
             ELSE IF au = <<>> \/ hp[1] = <<>> THEN Fail
             ELSE IF Len(hp) > 2 THEN Open
             ELSE IF ~All(hp[1], HostChar) THEN Open
             ELSE IF Len(hp) = 2 /\ hp[2] = <<>> THEN Open
             ELSE IF Len(hp) = 2 /\ ~All(hp[2], Digit) THEN (IF \E i \in 1..Len(hp[2]) : hp[2][i] = 64 THEN Open ELSE Fail)
             ELSE IF Len(hp) = 2 /\ (Len(Canon(hp[2])) > 5 \/ Dec(Canon(hp[2])) > 65535) THEN Fail
             ELSE IF Len(hp) = 2 /\ Dec(Canon(hp[2])) = 0 THEN Open
             ELSE IF ~All(pa, PathChar) \/ ~All(qu, QueryChar) THEN Open
             ELSE IF pa = <<>> /\ (qs # {} \/ f # {}) THEN Open       \* a query or fragment without a path
             ELSE IF qs # {} /\ qu = <<>> THEN Open       \* an empty query
             ELSE [v |-> "url", scheme |-> s, host |-> hp[1],
                   port |-> IF Len(hp) = 2 THEN Dec(Canon(hp[2])) ELSE DefaultPort(s),
                   path |-> pa, query |-> qu, params |-> Params(qu),
                   target |-> IF qu = <<>> THEN pa ELSE pa \o <<63>> \o qu, ext |-> Ext(pa)]
=============================================================================
