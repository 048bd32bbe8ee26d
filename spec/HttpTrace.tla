----------------------------- MODULE HttpTrace -----------------------------
(* Conformance of recorded runs of the real HTTP and URL code: each record    *)
(* holds what was offered and what was observed; the specification decides.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
H == INSTANCE HttpHead
B == INSTANCE HttpBody
U == INSTANCE Url
R == INSTANCE HttpResp
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i

OpenDefault(p, u) == p.port = 0 /\ [u EXCEPT !.port = 0] = p
Verdict(r) ==
  CASE r.k = "head" -> LET p == H!Parse(r.req, r.in, H!MaxHead) IN
                       IF p.v = "any" THEN "any"
                       ELSE IF p.v = "fail" THEN (IF r.out.v = "fail" THEN "ok" ELSE "bad")
                       ELSE IF r.out = p THEN "ok" ELSE "bad"
    [] r.k = "body" -> LET d == B!Deframe(r.mode, r.cl, r.in) IN
                       IF d.v = "any" THEN "any"
                       ELSE IF d.v = "end" THEN (IF r.out.body = d.body /\ r.out.used = d.used /\ r.out.v = (IF r.mode = "close" THEN "eof" ELSE "end") THEN "ok" ELSE "bad")
                       \* (with a length, all that comes before a premature end arrives)
                       ELSE IF r.mode = "cl" THEN (IF r.out.v # "end" /\ r.out.body = d.body THEN "ok" ELSE "bad")
                       ELSE IF r.out.v # "end" /\ Len(r.out.body) <= Len(d.body) /\ SubSeq(d.body, 1, Len(r.out.body)) = r.out.body THEN "ok" ELSE "bad"
    [] r.k = "url"  -> LET p == U!Decompose(r.in) IN
                       IF p.v = "any" THEN "any"
                       ELSE IF p.v = "fail" THEN (IF r.out.v = "fail" THEN "ok" ELSE "bad")
                       ELSE IF r.out.v # "url" THEN "bad"
                       ELSE LET e == IF U!ExtOpen(p.path) THEN r.out.ext ELSE p.ext
                                q == IF U!ParamsOpen(p.query) THEN r.out.params ELSE p.params
                                w == [p EXCEPT !.ext = e, !.params = q]
                            IN IF r.out = w \/ OpenDefault(w, r.out) THEN "ok" ELSE "bad"
    [] r.k = "look" -> IF r.out = [j \in 1..Len(r.keys) |-> U!Lookup(r.list, r.keys[j])] THEN "ok" ELSE "bad"
    [] r.k = "hlook" -> IF r.out = [j \in 1..Len(r.keys) |-> U!LookupFold(r.list, r.keys[j])] THEN "ok" ELSE "bad"
    [] r.k = "resp" -> IF R!Valid(r.m, r.out) THEN "ok" ELSE "bad"
Conforms == i > Len(Recs) \/ LET v == Verdict(Recs[i]) IN
              IF v = "ok" THEN TRUE ELSE PrintT("L:" \o v \o " " \o ToString(i))
=============================================================================
