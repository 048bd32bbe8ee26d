--------------------------------- MODULE Rtp ---------------------------------
(* RTP (RFC 3550), H.264 (RFC 6184) and AAC (RFC 3640, 13 + 3 bits) payloads  *)
(* and RTCP, datagram by datagram.  A step maps one datagram to the set of    *)
(* what may come of it: [st, out, e] with e one of "no" (it was in order, no  *)
(* error may be reported), "may".  Datagrams come in the order of their       *)
(* sequence numbers, and some get lost; "any" marks what is left open.        *)
EXTENDS Ascii
A == INSTANCE Annexb
U16(s, i) == s[i] * 256 + s[i + 1]
U32(s, i) == <<U16(s, i), U16(s, i + 2)>>
\* ------------------------------------------------------------------ headers
Bit(x, w) == (x \div w) % 2
Bad == [v |-> "bad"]
(* the fields of an RTP packet, or "bad" *)
Header(b) ==
  IF Len(b) < 12 \/ b[1] \div 64 # 2 THEN Bad
  ELSE LET cc == b[1] % 16
           o  == 12 + 4 * cc                 \* bytes before an extension
           x  == Bit(b[1], 16)
       IN IF o > Len(b) \/ (x = 1 /\ o + 4 > Len(b)) THEN Bad
          ELSE LET n == IF x = 0 THEN o ELSE o + 4 + 4 * U16(b, o + 3) IN
          IF n > Len(b) THEN Bad
          ELSE LET p == IF Bit(b[1], 32) = 0 THEN 0 ELSE b[Len(b)] IN
          IF Bit(b[1], 32) = 1 /\ (p = 0 \/ n + p > Len(b)) THEN Bad
          ELSE [v |-> "ok", mark |-> b[2] \div 128, pt |-> b[2] % 128, seq |-> U16(b, 3), ts |-> U32(b, 5), ssrc |-> U32(b, 9),
                csrc |-> Now([k \in 1..cc |-> U32(b, 9 + 4 * k)]),
                ext |-> IF x = 0 THEN <<>> ELSE SubSeq(b, o + 1, n), pay |-> Cut(b, n + 1, Len(b) - p)]
(* 32 bits at 90 kHz to ms; add: a 24-bit offset *)
Ms(t) == (t[1] \div 90) * 65536 + (((t[1] % 90) * 65536 + t[2]) \div 90)
Plus(t, o) == LET l == t[2] + o IN <<(t[1] + (l \div 65536)) % 65536, l % 65536>>
\* ------------------------------------------------------------------ H.264
(* one NAL unit with a time *)
Unit(st, u, t) == A!Deliver(st, <<u>>, 0, Ms(t))
NoFu == [on |-> FALSE, b |-> <<>>, next |-> 0]
Start == [v |-> "ok", sv |-> A!None, fu |-> NoFu]
MaxNal == 1048576
Open(st) == {[st |-> [st EXCEPT !.v = "any"], out |-> <<>>, e |-> "may"]}
Ignore(st) == {[st |-> st, out |-> <<>>, e |-> "may"]}
(* units us, each [u, t]; bad: they are followed by something inconsistent.   *)
(* What precedes it may or may not be delivered.                              *)
RECURSIVE Many(_, _, _, _)
Many(st, us, out, bad) ==
  IF us = <<>> THEN {[st |-> st, out |-> out, e |-> IF bad THEN "may" ELSE "no"]}
  ELSE LET w == Unit(st.sv, us[1].u, us[1].t)
           here == IF bad THEN {[st |-> st, out |-> out, e |-> "may"]} ELSE {}
       IN IF w.v = "any" THEN Open(st)
          ELSE IF w.v = "fail" THEN here \cup Many(st, <<>>, out, TRUE) \cup Many(st, Tail(us), out, TRUE)
          ELSE here \cup Many([st EXCEPT !.sv = w.st], Tail(us), out \o w.out, bad)
(* the units of an aggregation packet from byte i; k: bytes after the size    *)
RECURSIVE Parts(_, _, _, _)
Parts(p, i, k, t) ==
  IF i > Len(p) THEN [us |-> <<>>, bad |-> FALSE]
  ELSE IF i + 1 + k > Len(p) THEN [us |-> <<>>, bad |-> TRUE]
  ELSE LET n == U16(p, i)
           a == i + 2 + k
           tt == IF k = 0 THEN t ELSE Plus(t, IF k = 3 THEN U16(p, i + 3) ELSE p[i + 3] * 65536 + U16(p, i + 4))
       IN IF n = 0 \/ a + n - 1 > Len(p) THEN [us |-> <<>>, bad |-> TRUE]
          ELSE LET r == Parts(p, a + n, k, t) IN [us |-> <<[u |-> SubSeq(p, a, a + n - 1), t |-> tt]>> \o r.us, bad |-> r.bad]
(* a fragment *)
Fu(st0, h, p) ==
  LET (* one that does not follow the last one costs the pending unit *)
      st == IF st0.fu.on /\ h.seq # st0.fu.next THEN [st0 EXCEPT !.fu = NoFu] ELSE st0
      o  == IF p[1] % 32 = 29 THEN 4 ELSE 2
  IN IF Len(p) < o THEN {[x EXCEPT !.st.fu = NoFu] : x \in Ignore(st)} \cup Ignore(st)
     ELSE LET s == p[2] > 127
              e == Bit(p[2], 64) = 1
              b == (IF s THEN <<32 * (p[1] \div 32) + (p[2] % 32)>> ELSE st.fu.b) \o From(p, o + 1)
          IN IF s /\ e THEN Open(st)
             ELSE IF p[1] % 32 = 29 /\ ~s THEN Open(st)     \* FU-B begins a unit
             ELSE IF ~s /\ ~st.fu.on THEN {[st |-> st, out |-> <<>>, e |-> "may"]}
             ELSE IF Len(b) > MaxNal THEN {[x EXCEPT !.st.fu = NoFu] : x \in Ignore(st)}
             ELSE IF ~e THEN {[st |-> [st EXCEPT !.fu = [on |-> TRUE, b |-> b, next |-> (h.seq + 1) % 65536]], out |-> <<>>, e |-> "no"]}
             ELSE Many([st EXCEPT !.fu = NoFu], <<[u |-> b, t |-> h.ts]>>, <<>>, FALSE)
H264(st, h) ==
  LET p == h.pay IN
  IF p = <<>> THEN Ignore(st)
  ELSE LET t == p[1] % 32 IN
       CASE t \in 1..23 -> Many(st, <<[u |-> p, t |-> h.ts]>>, <<>>, FALSE)
         [] t = 24 -> IF Len(p) = 1 THEN Open(st) ELSE LET r == Parts(p, 2, 0, h.ts) IN Many(st, r.us, <<>>, r.bad)
         [] t = 25 -> IF Len(p) < 3 THEN Ignore(st) ELSE IF Len(p) = 3 THEN Open(st) ELSE LET r == Parts(p, 4, 0, h.ts) IN Many(st, r.us, <<>>, r.bad)
         [] t = 26 -> IF Len(p) < 3 THEN Ignore(st) ELSE IF Len(p) = 3 THEN Open(st) ELSE LET r == Parts(p, 4, 3, h.ts) IN Many(st, r.us, <<>>, r.bad)
         [] t = 27 -> IF Len(p) < 3 THEN Ignore(st) ELSE IF Len(p) = 3 THEN Open(st) ELSE LET r == Parts(p, 4, 4, h.ts) IN Many(st, r.us, <<>>, r.bad)
         [] t \in {28, 29} -> Fu(st, h, p)
         [] OTHER -> Ignore(st)
\* ------------------------------------------------------------------ AAC
RECURSIVE Aus(_, _, _, _, _)
Aus(p, i, k, n, out) ==        \* unit k of n lies at byte i
  IF k > n THEN [out |-> out, bad |-> FALSE, left |-> Len(p) - i + 1, zero |-> FALSE]
  ELSE LET s == U16(p, 1 + 2 * k) \div 8 IN
       IF i + s - 1 > Len(p) THEN [out |-> out, bad |-> TRUE, left |-> 0, zero |-> FALSE]
       ELSE LET r == Aus(p, i + s, k + 1, n, Append(out, SubSeq(p, i, i + s - 1))) IN [r EXCEPT !.zero = @ \/ s = 0]
Aac(st, h) ==
  LET p == h.pay IN
  IF Len(p) < 2 THEN Ignore(st)
  ELSE LET bits == U16(p, 1) IN
       IF bits % 16 # 0 THEN Ignore(st)
       ELSE IF bits = 0 THEN Open(st)
       ELSE IF 2 + bits \div 8 > Len(p) THEN Ignore(st)
       ELSE LET n == bits \div 16
                r == Aus(p, 3 + 2 * n, 1, n, <<>>)
                pk(l) == Now([k \in 1..Len(l) |-> [c |-> FALSE, b |-> l[k], p |-> IF k = 1 THEN Ms(h.ts) ELSE 0 - 1]])
            IN IF r.zero \/ \E k \in 2..n : U16(p, 1 + 2 * k) % 8 # 0 THEN Open(st)      \* interleaved
               ELSE IF ~r.bad /\ r.left = 0 THEN {[st |-> st, out |-> pk(r.out), e |-> "no"]}
               ELSE {[st |-> st, out |-> pk(SubSeq(r.out, 1, k)), e |-> "may"] : k \in 0..Len(r.out)}
\* ------------------------------------------------------------------ RTCP
Body(b, i) == Cut(b, i + 4, i + 3 + 4 * U16(b, i + 2))
Block(s, i) == [ssrc |-> U32(s, i), lost |-> s[i + 4], total |-> <<s[i + 5], U16(s, i + 6)>>, high |-> U32(s, i + 8),
                jitter |-> U32(s, i + 12), lsr |-> U32(s, i + 16), dlsr |-> U32(s, i + 20)]
Blocks(s, i, n) == Now([k \in 1..n |-> Block(s, i + 24 * (k - 1))])
RECURSIVE Items(_, _, _)
Items(s, i, from) ==         \* next: the first byte after the chunk
  IF i > Len(s) THEN [v |-> "bad", items |-> <<>>, next |-> 0]
  ELSE IF s[i] = 0 THEN LET z == (4 - ((i - from + 1) % 4)) % 4 IN
                        [v |-> IF i + z > Len(s) THEN "bad" ELSE "ok", items |-> <<>>, next |-> i + z + 1]
  ELSE IF i + 1 > Len(s) \/ i + 1 + s[i + 1] > Len(s) THEN [v |-> "bad", items |-> <<>>, next |-> 0]
  ELSE LET r == Items(s, i + 2 + s[i + 1], from) IN
       [r EXCEPT !.items = <<[type |-> s[i], b |-> Cut(s, i + 2, i + 1 + s[i + 1])]>> \o @]
RECURSIVE Chunks(_, _, _)
Chunks(s, i, n) ==
  IF n = 0 THEN [v |-> "ok", l |-> <<>>, next |-> i]
  ELSE IF i + 3 > Len(s) THEN [v |-> "bad", l |-> <<>>, next |-> 0]
  ELSE LET c == Items(s, i + 4, i + 4) IN
       IF c.v = "bad" THEN [v |-> "bad", l |-> <<>>, next |-> 0]
       ELSE LET r == Chunks(s, c.next, n - 1) IN [r EXCEPT !.l = <<[ssrc |-> U32(s, i), items |-> c.items]>> \o @]
(* one RTCP packet of count c, type pt and body s *)
Rtcp1(pt, c, s) ==
  CASE pt = 200 -> IF Len(s) < 24 + 24 * c THEN Bad
                   ELSE [v |-> "ok", pt |-> pt, ssrc |-> U32(s, 1), msw |-> U32(s, 5), lsw |-> U32(s, 9), ts |-> U32(s, 13), pkts |-> U32(s, 17),
                         octets |-> U32(s, 21), blocks |-> Blocks(s, 25, c)]
    [] pt = 201 -> IF Len(s) < 4 + 24 * c THEN Bad ELSE [v |-> "ok", pt |-> pt, ssrc |-> U32(s, 1), blocks |-> Blocks(s, 5, c)]
    [] pt = 202 -> LET r == Chunks(s, 1, c) IN IF r.v = "bad" THEN Bad ELSE [v |-> "ok", pt |-> pt, chunks |-> r.l]
    [] pt = 203 -> IF Len(s) < 4 * c THEN Bad ELSE [v |-> "ok", pt |-> pt]
    [] pt = 204 -> IF Len(s) < 8 THEN Bad ELSE [v |-> "ok", pt |-> pt]
    [] OTHER -> Bad
(* "ok": every packet of the datagram is in order; "bad": one is not, all before it are; "new": one of another type comes first *)
RECURSIVE Rtcp(_, _)
Rtcp(b, i) ==
  IF i > Len(b) THEN "ok"
  ELSE IF i + 3 > Len(b) \/ b[i] \div 64 # 2 \/ i + 3 + 4 * U16(b, i + 2) > Len(b) THEN "bad"
  ELSE IF b[i + 1] \notin 200..204 THEN "new"
  ELSE IF Rtcp1(b[i + 1], b[i] % 32, Body(b, i)).v = "bad" THEN "bad"
  ELSE Rtcp(b, i + 4 + 4 * U16(b, i + 2))
IsRtcp(b) == Len(b) >= 2 /\ b[2] \in 192..223
\* ------------------------------------------------------------------ datagrams
Step(codec, st, b) ==
  IF st.v = "any" THEN Open(st)
  ELSE IF IsRtcp(b) THEN {[st |-> st, out |-> <<>>, e |-> IF b[2] \notin 200..204 THEN "may"
                                                             ELSE CASE Rtcp(b, 1) = "ok" -> "no" [] Rtcp(b, 1) = "bad" -> "must" [] OTHER -> "may"]}
  ELSE LET h == Header(b) IN
       IF h.v = "bad" \/ h.pt < 96 THEN Ignore(st)
       ELSE IF codec = "h264" THEN H264(st, h) ELSE Aac(st, h)
(* observed packets o of one datagram *)
Same(w, o) == w.c = o.c /\ w.b = o.b /\ (w.c \/ w.p = 0 - 1 \/ w.p = o.p) /\ ("f" \in DOMAIN w => w.f = o.f)
Fits(x, d) == Len(x.out) = Len(d.out) /\ (d.err => x.e # "no") /\ (x.e = "must" => d.err) /\ \A k \in 1..Len(x.out) : Same(x.out[k], d.out[k])
RECURSIVE Run(_, _, _, _)
Run(codec, S, ds, i) ==
  IF i > Len(ds) THEN "ok"
  ELSE IF \E st \in S : st.v = "any" THEN "any"
  ELSE LET n == {x.st : x \in {y \in UNION {Step(codec, st, ds[i].b) : st \in S} : y.st.v = "any" \/ Fits(y, ds[i])}} IN
       IF n = {} THEN "bad" ELSE Run(codec, n, ds, i + 1)
Judge(codec, ds) == Run(codec, {Start}, ds, 1)
=============================================================================
