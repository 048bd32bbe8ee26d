------------------------------ MODULE RtpTrace ------------------------------
(* Recorded runs of the real RTP depacketisers and RTCP decoders.             *)
EXTENDS Integers, TLC, Json, IOUtils, SequencesExt
R == INSTANCE Rtp
T == INSTANCE Ts
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Packets(b) == T!Now([k \in 1..(Len(b) \div 188) |-> SubSeq(b, 188 * k - 187, 188 * k)])
(* a transport stream in RTP: what arrived in order is one stream *)
Arrived(ds) == FoldLeft(LAMBDA a, d : LET h == R!Header(d.b) IN
                  IF R!IsRtcp(d.b) \/ h.v = "bad" \/ h.pt # 33 \/ Len(h.pay) % 188 # 0 THEN a ELSE a \o h.pay, <<>>, ds)
Out(ds) == FoldLeft(LAMBDA a, d : a \o d.out, <<>>, ds)
HeaderIs(b, g) == LET h == R!Header(b) IN
  IF h.v = "bad" THEN ~g.ok
  ELSE /\ g.ok /\ g.mark = h.mark /\ g.pt = h.pt /\ g.seq = h.seq /\ g.ts = h.ts /\ g.ssrc = h.ssrc /\ g.csrc = h.csrc /\ g.ext = h.ext /\ g.pay = h.pay
RtcpIs(b, g) == IF Len(b) < 4 \/ b[1] \div 64 # 2 \/ Len(b) # 4 + 4 * R!U16(b, 3) THEN "any"
                ELSE LET w == R!Rtcp1(b[2], b[1] % 32, R!Body(b, 1)) IN
                     IF w.v = "bad" THEN (IF g.ok THEN "bad" ELSE "ok")
                     ELSE IF g.ok /\ \A f \in DOMAIN w \ {"v"} : w[f] = g[f] THEN "ok" ELSE "bad"
Verdict(r) == CASE r.k = "rtp" -> R!Judge(r.codec, r.ds)
                [] r.k = "ts" -> LET o == Out(r.ds) IN
                                 T!Judge(Packets(Arrived(r.ds)), SelectSeq(o, LAMBDA p : p.video), SelectSeq(o, LAMBDA p : ~p.video))
                [] r.k = "head" -> (IF HeaderIs(r.b, r.g) THEN "ok" ELSE "bad")
                [] OTHER -> RtcpIs(r.b, r.g)
Conforms == i > Len(Recs) \/ LET v == Verdict(Recs[i]) IN
              IF v = "ok" THEN TRUE ELSE PrintT("L:" \o v \o " " \o ToString(i))
=============================================================================
