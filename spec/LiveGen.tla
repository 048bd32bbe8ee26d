------------------------------- MODULE LiveGen -------------------------------
(* Behaviour generation: the history of steps rides along with the state but *)
(* is not part of the fingerprint (VIEW), so that an exhaustive search emits *)
(* every transition of the state graph once, with a shortest path to it.     *)
EXTENDS Live, Json
CONSTANT MaxHist
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == Next /\ hist' = Append(hist, act')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
GView == View
FullView == <<View, hist>>
Short == Len(hist) < MaxHist
Emit  == PrintT("B:" \o ToJson(hist'))
(* in simulation: print the behaviour when it has reached its full length *)
EmitEnd == Len(hist') # MaxHist \/ PrintT("B:" \o ToJson(hist'))
(* in simulation: one random choice of what to send instead of all of them *)
AllKindSeqs == {<<k>> : k \in Kinds} \cup (IF Burst THEN {<<k1, k2>> : k1, k2 \in Kinds} ELSE {})
OneKindSeq == IF cnt.pkt >= 0 THEN {RandomElement(AllKindSeqs)} ELSE {}
EmitAt == Len(hist) < MaxHist \/ PrintT("B:" \o ToJson(hist))
=============================================================================
