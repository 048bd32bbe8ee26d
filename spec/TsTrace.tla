------------------------------ MODULE TsTrace ------------------------------
(* Recorded runs of the real transport stream demuxer and relay.              *)
EXTENDS Integers, TLC, Json, IOUtils, SequencesExt
T == INSTANCE Ts
R == INSTANCE TsRelay
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Packets(b) == T!Now([k \in 1..(Len(b) \div 188) |-> SubSeq(b, 188 * k - 187, 188 * k)])
Verdict(r) == IF r.k = "ts" THEN T!Judge(Packets(r.in), SelectSeq(r.out, LAMBDA p : p.video), SelectSeq(r.out, LAMBDA p : ~p.video))
              ELSE R!Judge2(r.ops)
Conforms == i > Len(Recs) \/ LET v == Verdict(Recs[i]) IN
              IF v = "ok" THEN TRUE ELSE PrintT("L:" \o v \o " " \o ToString(i))
=============================================================================
