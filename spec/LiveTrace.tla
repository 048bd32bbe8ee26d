------------------------------ MODULE LiveTrace ------------------------------
(* Validation of recorded runs of the real server under concurrency.  A run   *)
(* is a sequence of batches; in a batch several clients and upstreams act at   *)
(* once (the server is held still meanwhile), then the server runs until it    *)
(* is quiescent and everything each connection observed is recorded.  A run    *)
(* conforms when for every batch SOME order of its events gives exactly the    *)
(* recorded observations - and the same orders explain all later batches.      *)
EXTENDS Live, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, todo, outs
tvars == <<vars, k, i, todo, outs>>

Batch(kk, ii) == Runs[kk].batches[ii]
Obs(kk, ii, c) == IF c \in DOMAIN Batch(kk, ii).obs THEN Batch(kk, ii).obs[c] ELSE <<>>

TInit == /\ Init /\ k \in 1..Len(Runs) /\ i = 1
         /\ todo = DOMAIN Batch(k, 1).evs /\ outs = Quiet

Do(e) == CASE e.a = "PubStart" -> PubStart(e.c, e.s, e.e)
           [] e.a = "PubSend"  -> pub[e.c].s # "" /\ pub[e.c].ext = "flv" /\ FeedAt(pub[e.c].s, e.k, "PubSend", e.c, e.n - 1)
           [] e.a = "PubEnd"   -> PubEnd(e.c, e.how)
           [] e.a = "Play"     -> Play(e.p, e.s)
           [] e.a = "Leave"    -> Leave(e.p, e.how)
           [] e.a = "UpAnswer" -> UpAnswer(e.s)
           [] e.a = "UpRefuse" -> UpRefuse(e.s, e.how)
           [] e.a = "UpSend"   -> src[e.s] = "edge" /\ FeedAt(e.s, e.k, "UpSend", "up", e.n - 1)
           [] e.a = "UpEnd"    -> UpEnd(e.s, e.how)
           [] e.a = "Tick"     -> Tick(e.d)

Texts(q) == [j \in 1..Len(q) |-> ToString(q[j])]
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

TStep == /\ i <= Len(Runs[k].batches)
         /\ \E j \in todo :
              /\ Do(Batch(k, i).evs[j])
              /\ todo' = todo \ {j}
              /\ outs' = [c \in Conns |-> outs[c] \o Texts(act'.ev[c])]
              /\ \A c \in Conns : Prefix(outs'[c], Obs(k, i, c))
         /\ UNCHANGED <<k, i>>

TEnd  == /\ i <= Len(Runs[k].batches) /\ todo = {}
         /\ \A c \in Conns : outs[c] = Obs(k, i, c)
         /\ i' = i + 1
         /\ todo' = IF i < Len(Runs[k].batches) THEN DOMAIN Batch(k, i + 1).evs ELSE {}
         /\ outs' = Quiet
         /\ i = Len(Runs[k].batches) => PrintT("L:" \o ToString(k))
         /\ UNCHANGED <<vars, k>>

TNext == TStep \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
TView == <<View, k, i, todo, outs>>
Sane == TypeOK /\ OnePublisher /\ WaitersHaveAPull /\ GenOK
=============================================================================
