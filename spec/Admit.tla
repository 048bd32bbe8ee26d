------------------------------- MODULE Admit -------------------------------
(* Admission on a streaming host: which requests are accepted, and what the  *)
(* client is told otherwise.  A host is a role and a permitted upload format.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Roles,     \* values of the role option
          Formats,   \* values of the edge_avformat option
          Exts,      \* extensions requested
          Names,     \* stream names
          MaxHist

Demux == {"flv", "ts"}      \* formats that can be uploaded
Mux   == {"flv"}            \* formats that can be played

Hosts == Roles \X Formats

VARIABLES live,  \* [Hosts \X Names -> 0 | publisher number]
          n,     \* publishers so far
          host,  \* the host this behaviour is about
          hist
vars == <<live, n, host, hist>>

Init == /\ host \in Hosts
        /\ live = [s \in Names |-> 0] /\ n = 0 /\ hist = <<>>

MayUpload(h, e) == h[1] = "source" /\ h[2] \in {"all", e}

(* a client uploads name.ext *)
Publish(s, e) ==
  LET verdict == IF ~MayUpload(host, e) THEN "403"
                 ELSE IF e \notin Demux \/ live[s] # 0 THEN "closed" ELSE "ok"
  IN /\ n' = n + 1
     /\ live' = IF verdict = "ok" THEN [live EXCEPT ![s] = n + 1] ELSE live
     /\ hist' = Append(hist, [a |-> "Publish", h |-> host, s |-> s, e |-> e, n |-> n + 1, r |-> verdict])
     /\ UNCHANGED host

(* a client asks for name.ext; the upstream of an edge host refuses connections *)
Play(s, e) ==
  LET verdict == IF live[s] = 0 THEN "404" ELSE IF e \in Mux THEN "200" ELSE "closed"
  IN /\ hist' = Append(hist, [a |-> "Play", h |-> host, s |-> s, e |-> e, r |-> verdict])
     /\ UNCHANGED <<live, n, host>>

End(s) ==
  /\ live[s] # 0
  /\ live' = [live EXCEPT ![s] = 0]
  /\ hist' = Append(hist, [a |-> "End", h |-> host, s |-> s, n |-> live[s], r |-> "ok"])
  /\ UNCHANGED <<n, host>>

Next == /\ Len(hist) < MaxHist
        /\ \/ \E s \in Names, e \in Exts : Publish(s, e) \/ Play(s, e)
           \/ \E s \in Names : End(s)
Spec == Init /\ [][Next]_vars

(* only a source host that permits the format ever has a stream *)
OnlySource == \A s \in Names : live[s] # 0 => host[1] = "source"
OnlyPermitted == \A i \in 1..Len(hist) :
  (hist[i].a = "Publish" /\ hist[i].r = "ok") => hist[i].e \in Demux /\ host[2] \in {"all", hist[i].e}
(* a refused upload leaves no trace: what is live was accepted and not ended *)
Traceless == \A s \in Names :
  live[s] # 0 <=> \E i \in 1..Len(hist) :
      /\ hist[i].a = "Publish" /\ hist[i].s = s /\ hist[i].r = "ok"
      /\ \A j \in i + 1..Len(hist) : ~(hist[j].a = "End" /\ hist[j].s = s)
Emit == Len(hist) # MaxHist \/ PrintT("B:" \o ToJson(hist))
=============================================================================
