------------------------------ MODULE ProxyGen ------------------------------
EXTENDS Proxy, Json
CONSTANT MaxHist
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == Next /\ hist' = Append(hist, act')
GSpec == GInit /\ [][GNext]_<<vars, hist>>
GView == core
Emit  == PrintT("B:" \o ToJson(hist'))
Short == Len(hist) < MaxHist
EmitEnd == Len(hist') # MaxHist \/ PrintT("B:" \o ToJson(hist'))
=============================================================================
