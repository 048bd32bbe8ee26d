------------------------------ MODULE HttpBody ------------------------------
(* What the bytes after a head mean as a body.                                *)
(*   mode "cl" (cl: length), "chunked", "close"                               *)
(*   v = "end": body complete, used bytes belong to it; v = "error": it must  *)
(*   be reported as an error, whatever was delivered being a prefix of body;  *)
(*   v = "any": not decided (trailer fields, oversized or padded size lines). *)
EXTENDS Ascii
MaxLine == 33           \* longest chunk size line, CR LF included
Huge == 1000000000

SizeLine(l) ==          \* without CR LF -> [v, n]
  LET s == At(l, 59)
      d == IF s = {} THEN l ELSE SubSeq(l, 1, Min(s) - 1)
      c == Canon(d)
  IN IF d = <<>> THEN [v |-> "error"]
     ELSE IF ~All(d, Hex) THEN [v |-> IF All(TrimL(Reverse(d), {SP, HT}), Hex) /\ Hex(d[1]) THEN "any" ELSE "error"]
     ELSE [v |-> "ok", n |-> IF Len(c) > 7 THEN Huge ELSE HexN(c)]

RECURSIVE Chunks(_, _, _)
Chunks(b, o, body) ==   \* o bytes used so far
  LET rest == From(b, o + 1)
      lf   == At(rest, LF)
      k    == IF lf = {} THEN 0 ELSE Min(lf)
  IN IF k = 0 THEN [v |-> "error", body |-> body, used |-> 0]       \* too long, or the end inside the line
     ELSE IF k > MaxLine THEN [v |-> IF SizeLine(SubSeq(rest, 1, k - 2)).v = "error" THEN "error" ELSE "any", body |-> body, used |-> 0]
     ELSE IF k < 2 \/ rest[k - 1] # CR THEN [v |-> "error", body |-> body, used |-> 0]
     ELSE LET l == SizeLine(SubSeq(rest, 1, k - 2)) IN
          IF l.v # "ok" THEN [v |-> l.v, body |-> body, used |-> 0]
          ELSE LET d == Cut(rest, k + 1, k + l.n)
                   t == Cut(rest, k + l.n + 1, k + l.n + 2)
               IN IF Len(d) < l.n THEN [v |-> "error", body |-> body \o d, used |-> 0]
                  ELSE IF l.n = 0
                  THEN IF t = <<CR, LF>> THEN [v |-> "end", body |-> body, used |-> o + k + 2]
                       ELSE IF Len(t) < 2 THEN [v |-> IF t \in {<<>>, <<CR>>} THEN "error" ELSE "any", body |-> body, used |-> 0]
                       ELSE [v |-> "any", body |-> body, used |-> 0]
                  ELSE IF t # <<CR, LF>> THEN [v |-> "error", body |-> body \o d, used |-> 0]
                  ELSE Chunks(b, o + k + l.n + 2, body \o d)

Deframe(mode, cl, b) ==
  CASE mode = "close" -> [v |-> "end", body |-> b, used |-> Len(b)]
    [] mode = "cl" -> IF Len(b) >= cl THEN [v |-> "end", body |-> SubSeq(b, 1, cl), used |-> cl]
                      ELSE [v |-> "error", body |-> b, used |-> 0]
    [] mode = "chunked" -> Chunks(b, 0, <<>>)

(* the coding itself *)
ChunkOf(d) == ToHex(Len(d)) \o <<CR, LF>> \o d \o <<CR, LF>>
LastChunk == <<48, CR, LF, CR, LF>>
=============================================================================
