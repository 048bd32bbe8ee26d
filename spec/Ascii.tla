------------------------------- MODULE Ascii -------------------------------
(* Bytes as text: classes, case, splitting, decimal and hexadecimal numbers.  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CR == 13
LF == 10
SP == 32
HT == 9
Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Alpha(c) == Upper(c) \/ Lower(c)
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF Upper(c) THEN c - 55 ELSE c - 87
TChar(c) == Digit(c) \/ Alpha(c) \/ c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
Low(c) == IF Upper(c) THEN c + 32 ELSE c
LowAll(s) == [i \in 1..Len(s) |-> Low(s[i])]
All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
At(s, c) == {i \in 1..Len(s) : s[i] = c}
(* bytes a..b of s, as far as there are any *)
Cut(s, a, b) == IF a > Len(s) \/ a > b THEN <<>> ELSE SubSeq(s, a, IF b > Len(s) THEN Len(s) ELSE b)
From(s, i) == Cut(s, i, Len(s))
(* a sequence written out (TLC evaluates a function again at every use) *)
Now(f) == FoldLeft(Append, <<>>, f)
(* pieces of s between the occurrences of c *)
Split(s, c) ==
  LET ps == SetToSortSeq(At(s, c), <)
      n  == Len(ps)
  IN Now([k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE ps[k - 1] + 1, IF k > n THEN Len(s) ELSE ps[k] - 1)])
(* s without leading bytes in set C *)
TrimL(s, C) == LET k == {i \in 1..Len(s) : s[i] \notin C} IN IF k = {} THEN <<>> ELSE From(s, Min(k))
(* decimal digits without leading zeros (at least one digit stays) *)
Canon(d) == LET t == TrimL(d, {48}) IN IF t = <<>> THEN <<48>> ELSE t
RECURSIVE Dec(_)
Dec(d) == IF d = <<>> THEN 0 ELSE Dec(Front(d)) * 10 + (d[Len(d)] - 48)
RECURSIVE HexN(_)
HexN(d) == IF d = <<>> THEN 0 ELSE HexN(Front(d)) * 16 + HexVal(d[Len(d)])
RECURSIVE ToDec(_)
ToDec(n) == IF n < 10 THEN <<48 + n>> ELSE ToDec(n \div 10) \o <<48 + (n % 10)>>
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE ToHex(_)
ToHex(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE ToHex(n \div 16) \o <<HexDigit(n % 16)>>
=============================================================================
