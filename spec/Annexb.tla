------------------------------- MODULE Annexb -------------------------------
(* H.264 access units in the byte stream format (ISO/IEC 14496-10 annex B)    *)
(* to packets: what a receiver of the packets gets to decode.                 *)
(* A NAL unit is what lies between two start codes 00 00 01, without the zero *)
(* bytes at its end.  The parameter sets in use are kept by their id; when    *)
(* an access unit changes them and there is at least one of each kind, the    *)
(* configuration record (14496-15) precedes the frames of that unit.  Slices, *)
(* IDR slices and SEI follow in order, each once, with a 4-byte length.       *)
EXTENDS Ascii
Start(b, i) == b[i] = 0 /\ b[i + 1] = 0 /\ b[i + 2] = 1
Starts(b) == FoldLeft(LAMBDA acc, i : IF Start(b, i) THEN Append(acc, i) ELSE acc, <<>>, [i \in 1..(IF Len(b) < 3 THEN 0 ELSE Len(b) - 2) |-> i])
TrimR(s) == LET k == {i \in 1..Len(s) : s[i] # 0} IN IF k = {} THEN <<>> ELSE SubSeq(s, 1, Max(k))
Units(b, ss) == Now([k \in 1..Len(ss) |-> TrimR(Cut(b, ss[k] + 3, IF k = Len(ss) THEN Len(b) ELSE ss[k + 1] - 1))])

Type(u) == u[1] % 32
Forbidden(u) == u[1] > 127
(* ue(v) at byte i of u; -1 (as 9999): not there *)
Bit(u, k) == (u[(k \div 8) + 1] \div (CASE k % 8 = 0 -> 128 [] k % 8 = 1 -> 64 [] k % 8 = 2 -> 32 [] k % 8 = 3 -> 16 [] k % 8 = 4 -> 8
                                       [] k % 8 = 5 -> 4 [] k % 8 = 6 -> 2 [] OTHER -> 1)) % 2
NoId == 9999
Ue(u, i) ==
  LET n  == 8 * Len(u)
      k0 == 8 * (i - 1)
      ones == {k \in k0..(IF n < k0 + 12 THEN n - 1 ELSE k0 + 11) : Bit(u, k) = 1}
  IN IF ones = {} THEN NoId
     ELSE LET k == Min(ones)
              z == k - k0
          IN IF k + z >= n THEN NoId
             ELSE FoldLeft(LAMBDA a, j : 2 * a + Bit(u, k + j), 1, [j \in 1..z |-> j]) - 1
SetId(u) == IF Type(u) = 7 THEN (IF Len(u) < 5 THEN NoId ELSE Ue(u, 5)) ELSE (IF Len(u) < 2 THEN NoId ELSE Ue(u, 2))
BadSet(u) == Type(u) \in {7, 8} /\ (Len(u) > 65535 \/ SetId(u) > (IF Type(u) = 7 THEN 30 ELSE 254))

(* a set of parameter sets: ascending by id *)
Put(l, id, u) == SelectSeq(l, LAMBDA e : e.id < id) \o <<[id |-> id, b |-> u]>> \o SelectSeq(l, LAMBDA e : e.id > id)
None == [sps |-> <<>>, pps |-> <<>>]
Learn(st, us) == FoldLeft(LAMBDA s, u : CASE Type(u) = 7 -> [s EXCEPT !.sps = Put(s.sps, SetId(u), u)]
                                          [] Type(u) = 8 -> [s EXCEPT !.pps = Put(s.pps, SetId(u), u)]
                                          [] OTHER -> s, st, us)
Sized(l) == FoldLeft(LAMBDA a, e : a \o <<Len(e.b) \div 256, Len(e.b) % 256>> \o e.b, <<>>, l)
Record(st) == LET s == st.sps[1].b IN
              <<1, s[2], s[3], s[4], 255, 224 + Len(st.sps)>> \o Sized(st.sps) \o <<Len(st.pps)>> \o Sized(st.pps)
Len4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Config(st) == [c |-> TRUE, f |-> 23, b |-> Record(st)]
Frame(u, d, p) == [c |-> FALSE, f |-> (CASE Type(u) = 5 -> 23 [] Type(u) = 1 -> 39 [] OTHER -> 87), d |-> d, p |-> p, b |-> Len4(Len(u)) \o u]
Complete(st) == st.sps # <<>> /\ st.pps # <<>>

(* one access unit of NAL units us *)
Deliver(st, us, d, p) ==
  IF \E i \in 1..Len(us) : us[i] # <<>> /\ Forbidden(us[i]) THEN [v |-> "fail", st |-> st, out |-> <<>>]
  ELSE IF \E i \in 1..Len(us) : us[i] = <<>> \/ Type(us[i]) \in 2..4 \/ BadSet(us[i]) THEN [v |-> "any", st |-> st, out |-> <<>>]
  ELSE LET n == Learn(st, us)
           fs == SelectSeq(us, LAMBDA u : Type(u) \in {1, 5, 6})
       IN [v |-> "ok", st |-> n,
           out |-> (IF n # st /\ Complete(n) THEN <<Config(n)>> ELSE <<>>) \o Now([i \in 1..Len(fs) |-> Frame(fs[i], d, p)])]
Au(st, b, d, p) ==
  IF Len(b) < 4 THEN [v |-> "any", st |-> st, out |-> <<>>]
  ELSE LET ss == Starts(b) IN
       IF ss = <<>> THEN [v |-> "fail", st |-> st, out |-> <<>>]
       ELSE IF \E i \in 1..(ss[1] - 1) : b[i] # 0 THEN [v |-> "any", st |-> st, out |-> <<>>]
       ELSE Deliver(st, Units(b, ss), d, p)
=============================================================================
