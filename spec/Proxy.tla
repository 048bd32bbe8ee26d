------------------------------- MODULE Proxy -------------------------------
(* The reverse proxy: clients send requests (possibly before the answer to    *)
(* the previous one), each goes once to the upstream, whose answer, given in  *)
(* pieces and possibly broken off anywhere, goes back to that client alone.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Clients,
          Kinds,      \* of requests: see Body and Bodyless
          Framings,   \* of answers: "len", "chunked", "close", "none"
          MaxEx,      \* exchanges in a behaviour
          MaxQueue,   \* requests waiting behind the current one
          MaxPiece,   \* pieces of an answer's body before its end
          Interims,   \* interim (1xx) answers
          Reconnect,  \* TRUE: clients come back
          Partials    \* TRUE: request bodies that come in two parts

VARIABLES ph,    \* [Clients -> idle, sending, wait, head, gone, closed]
          cur,   \* [Clients -> current exchange, 0 if none]
          queue, \* [Clients -> requests sent behind it]
          kind,  \* [exchange -> its kind]
          fr,    \* [Clients -> framing of the answer being given]
          np,    \* [Clients -> pieces given so far]
          ni,    \* interim answers so far in this behaviour
          seen,  \* exchanges that reached the upstream, in order
          done,  \* [Clients -> exchanges completely answered, in order]
          broken,\* exchanges that must never look completely answered
          act    \* the last step
core == <<ph, cur, queue, kind, fr, np, ni, seen, done, broken>>
vars == <<core, act>>

HasBody(k) == k \in {"post", "postc"}
Dead(k)    == k = "dead"      \* to a host whose upstream refuses connections
(* answers that end with their head whatever it says *)
NoBody(k, f) == k = "head" \/ f = "none"

Fresh == Len(kind) + 1

Init == /\ ph = [c \in Clients |-> "idle"] /\ cur = [c \in Clients |-> 0]
        /\ queue = [c \in Clients |-> <<>>] /\ kind = <<>>
        /\ fr = [c \in Clients |-> "none"] /\ np = [c \in Clients |-> 0] /\ ni = 0
        /\ seen = <<>> /\ done = [c \in Clients |-> <<>>] /\ broken = {}
        /\ act = [a |-> "Init"]

Obs == [seen |-> seen', done |-> done', broken |-> broken',
        closed |-> {c \in Clients : ph'[c] = "closed"}]
Say(r) == act' = r @@ [o |-> Obs]

(* what becomes of client c when the request on its turn is e (0: none) *)
Start(c, e, q) ==
  IF e = 0 THEN /\ ph' = [ph EXCEPT ![c] = "idle"] /\ cur' = [cur EXCEPT ![c] = 0]
                /\ queue' = [queue EXCEPT ![c] = <<>>] /\ seen' = seen /\ broken' = broken
  ELSE IF Dead(kind'[e])
  THEN /\ ph' = [ph EXCEPT ![c] = "closed"] /\ cur' = [cur EXCEPT ![c] = 0]
       /\ queue' = [queue EXCEPT ![c] = <<>>] /\ seen' = seen
       /\ broken' = broken \cup {e}
  ELSE /\ ph' = [ph EXCEPT ![c] = "wait"] /\ cur' = [cur EXCEPT ![c] = e]
       /\ queue' = [queue EXCEPT ![c] = q] /\ seen' = Append(seen, e) /\ broken' = broken

(* a whole request *)
Request(c, k) ==
  /\ Len(kind) < MaxEx
  /\ kind' = Append(kind, k)
  /\ \/ ph[c] = "idle" /\ Start(c, Fresh, <<>>)
     \/ /\ ph[c] \in {"wait", "head"} /\ Len(queue[c]) < MaxQueue
        \* not when the connection is bound to end before it is read: what a reset
        \* then destroys is no fault of the proxy
        /\ ~(ph[c] = "head" /\ fr[c] = "close")
        /\ \A i \in 1..Len(queue[c]) : ~Dead(kind[queue[c][i]])
        /\ queue' = [queue EXCEPT ![c] = Append(@, Fresh)]
        /\ UNCHANGED <<ph, cur, seen, broken>>
  /\ UNCHANGED <<fr, np, ni, done>>
  /\ Say([a |-> "Request", c |-> c, e |-> Fresh, k |-> k])

(* the head and a part of the body of a request *)
Open(c, k) ==
  /\ Partials /\ HasBody(k) /\ Len(kind) < MaxEx /\ ph[c] = "idle"
  /\ kind' = Append(kind, k)
  /\ ph' = [ph EXCEPT ![c] = "sending"] /\ cur' = [cur EXCEPT ![c] = Fresh]
  /\ UNCHANGED <<queue, fr, np, ni, seen, done, broken>>
  /\ Say([a |-> "Open", c |-> c, e |-> Fresh, k |-> k])
Rest(c) ==
  /\ ph[c] = "sending" /\ kind' = kind
  /\ Start(c, cur[c], <<>>)
  /\ UNCHANGED <<fr, np, ni, done>>
  /\ Say([a |-> "Rest", c |-> c, e |-> cur[c]])

(* exchange complete: the next request, if any, is sent to the upstream *)
Complete(c) ==
  /\ done' = [done EXCEPT ![c] = Append(@, cur[c])]
  /\ kind' = kind
  /\ IF queue[c] = <<>> THEN Start(c, 0, <<>>) ELSE Start(c, Head(queue[c]), Tail(queue[c]))

Interim(c) ==
  /\ ph[c] = "wait" /\ ni < Interims /\ ni' = ni + 1
  /\ UNCHANGED <<ph, cur, queue, kind, fr, np, seen, done, broken>>
  /\ Say([a |-> "Interim", c |-> c, e |-> cur[c]])

(* the upstream sends the head of its answer *)
AnswerHead(c, f) ==
  /\ ph[c] = "wait" /\ (f = "close" => queue[c] = <<>>)
  /\ UNCHANGED ni
  /\ IF NoBody(kind[cur[c]], f)
     THEN Complete(c) /\ UNCHANGED <<fr, np>>
     ELSE /\ ph' = [ph EXCEPT ![c] = "head"] /\ fr' = [fr EXCEPT ![c] = f] /\ np' = [np EXCEPT ![c] = 0]
          /\ UNCHANGED <<cur, queue, kind, seen, done, broken>>
  /\ Say([a |-> "Head", c |-> c, e |-> cur[c], f |-> f])
Piece(c) ==
  /\ ph[c] = "head" /\ np[c] < MaxPiece
  /\ np' = [np EXCEPT ![c] = @ + 1]
  /\ UNCHANGED <<ph, cur, queue, kind, fr, ni, seen, done, broken>>
  /\ Say([a |-> "Piece", c |-> c, e |-> cur[c]])
(* the rest of the body and its end *)
Finish(c) ==
  /\ ph[c] = "head" /\ UNCHANGED <<fr, np, ni>>
  /\ IF fr[c] = "close"
     THEN /\ done' = [done EXCEPT ![c] = Append(@, cur[c])]
          /\ ph' = [ph EXCEPT ![c] = "closed"] /\ cur' = [cur EXCEPT ![c] = 0]
          /\ UNCHANGED <<queue, kind, seen, broken>>
     ELSE Complete(c)
  /\ Say([a |-> "Finish", c |-> c, e |-> cur[c]])
(* all of the answer at once *)
Answer(c, f) ==
  /\ ph[c] = "wait" /\ (f = "close" => queue[c] = <<>>)
  /\ UNCHANGED <<fr, np, ni>>
  /\ IF f = "close" /\ ~NoBody(kind[cur[c]], f)
     THEN /\ done' = [done EXCEPT ![c] = Append(@, cur[c])]
          /\ ph' = [ph EXCEPT ![c] = "closed"] /\ cur' = [cur EXCEPT ![c] = 0]
          /\ UNCHANGED <<queue, kind, seen, broken>>
     ELSE Complete(c)
  /\ Say([a |-> "Answer", c |-> c, e |-> cur[c], f |-> f])

(* the upstream fails: before or within the head ("silent", "garbage", "cuthead"),
   or within the body ("cut") *)
Fail(c, how) ==
  /\ \/ ph[c] = "wait" /\ how \in {"silent", "garbage", "cuthead"}
     \/ ph[c] = "head" /\ fr[c] # "close" /\ how = "cut"
  /\ ph' = [ph EXCEPT ![c] = "closed"] /\ cur' = [cur EXCEPT ![c] = 0]
  /\ queue' = [queue EXCEPT ![c] = <<>>]
  /\ broken' = broken \cup {cur[c]} \cup {queue[c][i] : i \in 1..Len(queue[c])}
  /\ UNCHANGED <<kind, fr, np, ni, seen, done>>
  /\ Say([a |-> "Fail", c |-> c, e |-> cur[c], how |-> how])

(* the client goes away; the upstream may not have noticed and still answers *)
Leave(c, how) ==
  /\ ph[c] \in {"idle", "sending", "wait", "head"}
  /\ queue[c] = <<>>
  /\ ph' = [ph EXCEPT ![c] = "gone"]
  /\ broken' = IF ph[c] = "sending" THEN broken \cup {cur[c]} ELSE broken
  /\ UNCHANGED <<cur, queue, kind, fr, np, ni, seen, done>>
  /\ Say([a |-> "Leave", c |-> c, e |-> cur[c], how |-> how])
Late(c) ==
  /\ ph[c] = "gone" /\ cur[c] # 0 /\ cur[c] \notin broken
  /\ cur' = [cur EXCEPT ![c] = 0]
  /\ UNCHANGED <<ph, queue, kind, fr, np, ni, seen, done, broken>>
  /\ Say([a |-> "Late", c |-> c, e |-> cur[c]])

(* a client comes (back) with a new connection *)
Connect(c) ==
  /\ Reconnect /\ ph[c] \in {"closed", "gone"} /\ (cur[c] = 0 \/ cur[c] \in broken)
  /\ ph' = [ph EXCEPT ![c] = "idle"] /\ cur' = [cur EXCEPT ![c] = 0]
  /\ done' = [done EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<queue, kind, fr, np, ni, seen, broken>>
  /\ Say([a |-> "Connect", c |-> c])

Next == \E c \in Clients :
  \/ Connect(c)
  \/ \E k \in Kinds : Request(c, k) \/ Open(c, k)
  \/ Rest(c) \/ Interim(c) \/ Piece(c) \/ Finish(c) \/ Late(c)
  \/ \E f \in Framings : AnswerHead(c, f) \/ Answer(c, f)
  \/ \E h \in {"silent", "garbage", "cuthead", "cut"} : Fail(c, h)
  \/ \E h \in {"fin", "rst"} : Leave(c, h)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
(* no exchange is sent upstream twice; each is answered at most once, to one client,
   in the order in which that client asked, and only after the upstream saw it *)
Once == \A i, j \in 1..Len(seen) : i # j => seen[i] # seen[j]
InOrder == \A c \in Clients : Increasing(done[c])
Apart == \A c, d \in Clients : c # d => Range(done[c]) \cap Range(done[d]) = {}
OnlySeen == \A c \in Clients : Range(done[c]) \subseteq Range(seen)
NeverWhole == \A c \in Clients : Range(done[c]) \cap broken = {}
OneAtATime == \A c \in Clients : cur[c] # 0 => \A i \in 1..Len(queue[c]) : queue[c][i] \notin Range(seen)
(* what one client does changes nothing for another *)
Others == [][ \A d \in Clients : ("c" \in DOMAIN act' /\ d # act'.c)
     => ph'[d] = ph[d] /\ cur'[d] = cur[d] /\ done'[d] = done[d] /\ queue'[d] = queue[d] ]_vars
=============================================================================
