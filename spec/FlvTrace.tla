------------------------------ MODULE FlvTrace ------------------------------
(* Conformance of recorded runs of the real demuxer: each record holds the    *)
(* bytes offered and the packets delivered; the specification decides.        *)
EXTENDS FlvFmt, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Ok(r) == Demux(r.in) = r.out
Conforms == i > Len(Recs) \/ Ok(Recs[i]) \/ PrintT("L:" \o ToString(i))
=============================================================================
