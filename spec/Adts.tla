-------------------------------- MODULE Adts --------------------------------
(* AAC in ADTS frames (ISO/IEC 14496-3, 1.A) to packets.  Every frame of a    *)
(* buffer is delivered without its header, in order, with the time of the     *)
(* buffer plus the duration of the frames before it; the configuration (the   *)
(* first bytes of an AudioSpecificConfig) precedes the first frame and every  *)
(* frame whose profile, rate or channels differ from those of the last one.   *)
(* A buffer that is not a sequence of whole frames delivers nothing and       *)
(* leaves the state alone.                                                    *)
EXTENDS Ascii
Rates == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350>>
HeadLen(b, i) == IF b[i + 1] % 2 = 1 THEN 7 ELSE 9
Profile(b, i) == b[i + 2] \div 64
Rate(b, i) == (b[i + 2] \div 4) % 16
Chan(b, i) == 4 * (b[i + 2] % 2) + (b[i + 3] \div 64)
Layer(b, i) == (b[i + 1] \div 2) % 4
Blocks(b, i) == b[i + 6] % 4
FrameLen(b, i) == 2048 * (b[i + 3] % 4) + 8 * b[i + 4] + (b[i + 5] \div 32)
Sync(b, i) == b[i] = 255 /\ b[i + 1] \div 16 = 15
(* original/home, which may or may not count as a change *)
Rest(b, i) == <<b[i + 1] % 2, (b[i + 3] \div 16) % 4>>
At0(b, i) == [key |-> <<Profile(b, i), Rate(b, i), Chan(b, i)>>, soft |-> Rest(b, i)]
Asc(k) == <<8 * (k[1] + 1) + (k[2] \div 2), 128 * (k[2] % 2) + 8 * k[3]>>
Nothing == [key |-> <<>>, soft |-> <<>>]

(* the frames of b: <<[at, len, key, soft]>>, or what is wrong *)
RECURSIVE Frames(_, _)
Frames(b, i) ==
  IF i > Len(b) THEN [v |-> "ok", fs |-> <<>>]
  ELSE IF i + 6 > Len(b) \/ ~Sync(b, i) THEN [v |-> "fail", fs |-> <<>>]
  ELSE LET n == FrameLen(b, i)
           h == HeadLen(b, i)
       IN IF n < h \/ i + n - 1 > Len(b) THEN [v |-> "fail", fs |-> <<>>]
          ELSE LET r == Frames(b, i + n)
                   odd == Layer(b, i) # 0 \/ Rate(b, i) > 12 \/ Blocks(b, i) # 0 \/ n = h
               IN [v |-> IF r.v = "fail" THEN "fail" ELSE IF odd THEN "any" ELSE r.v,
                   fs |-> <<[b |-> SubSeq(b, i + h, i + n - 1), at |-> At0(b, i)]>> \o r.fs]

(* out: the observed packets; a configuration is due when the key changes,    *)
(* allowed when only soft fields do                                           *)
Want(st, fs, k) == (IF k = 1 THEN st ELSE fs[k - 1].at)
Due(st, fs, k) == Want(st, fs, k).key # fs[k].at.key
May(st, fs, k) == Want(st, fs, k).soft # fs[k].at.soft
Offset(fs, k) == FoldLeft(LAMBDA a, f : a + (102400000 \div Rates[f.at.key[2] + 1]), 0, SubSeq(fs, 1, k - 1)) \div 100
Near(x, y) == x - y <= 1 /\ y - x <= 1
IsConf(p, at) == p.c /\ p.b = Asc(at.key)
IsFrame(p, f, t) == ~p.c /\ p.b = f.b /\ Near(p.d, t) /\ p.p = p.d
RECURSIVE Same(_, _, _, _, _, _)
Same(st, fs, k, out, j, d) ==
  IF k > Len(fs) THEN j = Len(out) + 1
  ELSE IF j > Len(out) THEN FALSE
  ELSE IF Due(st, fs, k) \/ (May(st, fs, k) /\ out[j].c)
       THEN IsConf(out[j], fs[k].at) /\ j < Len(out) /\ IsFrame(out[j + 1], fs[k], d + Offset(fs, k)) /\ Same(st, fs, k + 1, out, j + 2, d)
       ELSE IsFrame(out[j], fs[k], d + Offset(fs, k)) /\ Same(st, fs, k + 1, out, j + 1, d)
(* buffers without a time *)
RECURSIVE SameBytes(_, _, _, _, _)
SameBytes(st, fs, k, out, j) ==
  IF k > Len(fs) THEN j = Len(out) + 1
  ELSE IF j > Len(out) THEN FALSE
  ELSE IF Due(st, fs, k) \/ (May(st, fs, k) /\ out[j].c)
       THEN IsConf(out[j], fs[k].at) /\ j < Len(out) /\ ~out[j + 1].c /\ out[j + 1].b = fs[k].b /\ SameBytes(st, fs, k + 1, out, j + 2)
       ELSE ~out[j].c /\ out[j].b = fs[k].b /\ SameBytes(st, fs, k + 1, out, j + 1)
SameButTime(st, fs, out) == SameBytes(st, fs, 1, out, 1)
(* what the specification itself would deliver *)
Expect(st, fs, d) == FoldLeft(LAMBDA a, k : a \o (IF Due(st, fs, k) THEN <<[c |-> TRUE, b |-> Asc(fs[k].at.key)]>> ELSE <<>>)
                                  \o <<[c |-> FALSE, b |-> fs[k].b, d |-> d + Offset(fs, k), p |-> d + Offset(fs, k)]>>, <<>>, [k \in 1..Len(fs) |-> k])
After(st, fs) == IF fs = <<>> THEN st ELSE fs[Len(fs)].at
=============================================================================
