------------------------------ MODULE Hostile ------------------------------
(* Clients and upstreams that do whatever they like, beside an exchange that  *)
(* must not notice.  One step = one hostile act, followed by everything the    *)
(* server does about it; then the undisturbed publisher sends packets, its     *)
(* player gets them, and somebody else asks for something.                     *)
(* The specification says which connections the server still has (and so how   *)
(* many descriptors it holds) and which stream names are taken.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS H,        \* hostile clients
          Doors,    \* what they ask for: subset of {"play", "upload", "dup", "proxy", "pull", "gone", "body"}
          Room,     \* descriptors left for them
          Ticks,    \* TRUE: time passes
          MaxOps

VARIABLES ph,    \* [H -> phase], see Phases
          line,  \* those waiting to be accepted, in order
          dirty, \* those that sent more than they should while waiting
          hist
core == <<ph, line, dirty>>
vars == <<ph, line, dirty, hist>>

(* none: no connection     line: connected, not accepted yet                   *)
(* fresh: nothing sent     part: an incomplete head sent                       *)
(* upload: its stream is being published      play: gets the canary's stream   *)
(* wait: the upstream has its request         pull: the upstream has its pull  *)
(* shut: the server has closed                limbo: the server may have       *)
Phases == {"none", "line", "fresh", "part", "upload", "play", "wait", "pull", "shut", "limbo"}
Lo(p) == CASE p \in {"fresh", "part", "upload", "play"} -> 1 [] p \in {"wait", "pull"} -> 2 [] OTHER -> 0
Hi(p) == IF p = "limbo" THEN 2 ELSE Lo(p)
Sum(f) == LET F[T \in SUBSET H] == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f[x] + F[T \ {x}] IN F[H]
LoOf(s) == Sum([h \in H |-> Lo(s[h])])
HiOf(s) == Sum([h \in H |-> Hi(s[h])])

Init == ph = [h \in H |-> "none"] /\ line = <<>> /\ dirty = {} /\ hist = <<>>

(* whoever waits is accepted as soon as there is room *)
Served(s, l) ==
  LET n == IF HiOf(s) >= Room THEN 0 ELSE IF Len(l) <= Room - HiOf(s) THEN Len(l) ELSE Room - HiOf(s)
  IN [s |-> [h \in H |-> IF \E k \in 1..n : l[k] = h THEN "fresh" ELSE s[h]], l |-> SubSeq(l, n + 1, Len(l))]
Step(a, h, c, s, l, d) ==
  LET v == Served(s, l) IN
  /\ ph' = v.s /\ line' = v.l /\ dirty' = d
  /\ hist' = Append(hist, [a |-> a, h |-> h, c |-> c, was |-> ph[h], to |-> v.s[h], lo |-> LoOf(v.s), hi |-> HiOf(v.s), line |-> Len(v.l),
                           live |-> {x \in H : v.s[x] = "upload"}, free |-> {x \in H : v.s[x] \notin {"upload", "limbo"}}])
Become(a, h, c, p) == Step(a, h, c, [ph EXCEPT ![h] = p], SelectSeq(line, LAMBDA x : x # h), dirty \ {h})

Connect(h) == ph[h] = "none" /\ Step("connect", h, "", [ph EXCEPT ![h] = "line"], Append(line, h), dirty)
(* bytes on a connection on which a request is due *)
Say(h) ==
  \/ /\ ph[h] = "fresh"
     /\ \/ Become("say", h, "part", "part")                       \* some of a head
        \/ \E c \in {"junk", "long"} : Become("say", h, c, "shut")  \* not HTTP; a head without end
        \/ "gone" \in Doors /\ Become("say", h, "gone", "fresh")   \* a stream or host there is not, full of format directives
        \/ "body" \in Doors /\ Become("say", h, "body", "shut")    \* the same with a body that looks like a request
        \/ "dup" \in Doors /\ Become("say", h, "dup", "shut")      \* upload of the canary's stream
        \/ "play" \in Doors /\ Become("say", h, "play", "play")
        \/ "upload" \in Doors /\ Become("say", h, "upload", "upload")
        \/ \E d \in {"proxy", "pull"} \cap Doors : HiOf(ph) < Room /\ Become("say", h, d, IF d = "proxy" THEN "wait" ELSE "pull")
        \* no descriptor left for the upstream
        \/ "proxy" \in Doors /\ LoOf(ph) >= Room /\ Become("say", h, "proxy", "shut")
        \/ "pull" \in Doors /\ LoOf(ph) >= Room /\ Become("say", h, "pull", "fresh")
  \/ /\ ph[h] = "part"
     /\ \/ Become("say", h, "rest", "fresh")
        \/ Become("say", h, "long", "shut")
  \/ /\ ph[h] = "upload"
     /\ \/ \E c \in {"good", "tiny"} : Become("say", h, c, "upload")
        \/ Become("say", h, "bad", "shut")
  \/ /\ ph[h] \in {"play", "wait", "pull"}        \* nobody asked for that
     /\ h \notin dirty
     /\ Step("say", h, "more", ph, line, dirty \cup {h})
(* the upstream of a waiting one *)
Up(h) ==
  \/ /\ ph[h] = "wait"
     /\ \/ \E c \in {"junk", "long", "cut", "rst", "short", "badchunk"} : Become("up", h, c, "shut")
        \/ Become("up", h, "ok", IF h \in dirty THEN "shut" ELSE "fresh")
  \/ /\ ph[h] = "pull"
     /\ \/ \E c \in {"junk", "long", "cut", "rst", "no"} : Become("up", h, c, IF h \in dirty THEN "shut" ELSE "fresh")
        \/ \E c \in {"notflv", "badtag"} : Become("up", h, c, "limbo")
(* the client goes, and so does the upstream it had; or it only stops sending *)
End(h) ==
  \/ /\ ph[h] # "none"
     /\ \E c \in {"fin", "rst"} : Become("end", h, c, "none")
  \/ /\ ph[h] \in {"fresh", "part", "upload"} /\ Become("end", h, "half", "shut")
  \/ /\ ph[h] = "play" /\ h \notin dirty /\ Step("end", h, "half", ph, line, dirty \cup {h})
(* longer than anybody waits for a pull (for an answer to a proxied request?) *)
Tick == /\ Ticks /\ \E h \in H : ph[h] # "none"
        /\ LET s == [h \in H |-> IF ph[h] \in {"pull", "wait"} THEN "limbo" ELSE ph[h]] IN Step("tick", CHOOSE h \in H : TRUE, "", s, line, dirty)
Next == Len(hist) < MaxOps /\ ((\E h \in H : Connect(h) \/ Say(h) \/ Up(h) \/ End(h)) \/ Tick)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
TypeOK == ph \in [H -> Phases] /\ \A h \in H : (\E k \in 1..Len(line) : line[k] = h) <=> ph[h] = "line"
(* nothing is left of those that went *)
Freed == (\A h \in H : ph[h] \in {"none", "shut"}) => HiOf(ph) = 0
(* the server never holds more than there is, and nobody waits in vain *)
Bounded == HiOf(ph) <= Room + 2 /\ (line # <<>> => HiOf(ph) >= Room)
(* what one does changes nothing for another, but whether it is accepted yet *)
Apart == [][ LET h == hist'[Len(hist')].h IN \A g \in H \ {h} :
               ph'[g] = ph[g] \/ (ph[g] = "line" /\ ph'[g] = "fresh") \/ hist'[Len(hist')].a = "tick" ]_vars
View == <<core, Len(hist), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
GView == <<core, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
Emit == PrintT("B:" \o ToJson([ops |-> hist']))
EmitEnd == Len(hist') < MaxOps \/ PrintT("B:" \o ToJson([ops |-> hist']))
=============================================================================
