-------------------------------- MODULE Srt --------------------------------
(* Streams published and played over SRT, beside HTTP.                         *)
(* A caller's stream id says what it does and with which name.  Every player    *)
(* gets the stream's tables, everything since the last unit start, and then      *)
(* every packet; a viewer over HTTP gets the units, once they are complete.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS C,        \* callers over SRT
          N,        \* names
          Web,      \* TRUE: a publisher ("w") and a viewer ("v") over HTTP as well
          Menu,     \* which of Puts are sent at once
          Ids,      \* stream ids that are refused
          MaxOps

VARIABLES role,  \* [caller -> none, pub, play, stale]
          of,    \* [caller -> name]
          str,   \* [N -> stream]
          n,     \* packets sent
          left,  \* players whose leaving may not have been noticed
          hist
vars == <<role, of, str, n, left, hist>>
Kinds == {"pat", "pmt", "start", "cont", "null", "alien"}
Puts == <<<<"pat", "pmt">>, <<"start">>, <<"cont", "cont">>, <<"pat", "pmt", "start", "cont">>, <<"start", "cont", "pmt", "null", "alien", "start">>,
          <<"pat">>, <<"pmt">>, <<"cont">>, <<"null", "alien">>, <<"start", "start", "cont">>>>
All == C \cup (IF Web THEN {"w", "v"} ELSE {})
Free == [pub |-> "", by |-> "", pat |-> 0, pmt |-> 0, since |-> <<>>, unit |-> <<>>, last |-> <<>>]
Opt(x) == IF x = 0 THEN <<>> ELSE <<x>>

Init == /\ role = [c \in All |-> "none"] /\ of = [c \in All |-> ""]
        /\ str = [s \in N |-> Free] /\ n = 0 /\ left = 0 /\ hist = <<>>

(* a packet: what becomes of the stream, what players get, what viewers get *)
One(s, k, i) ==
  CASE k = "pat" -> [s |-> [s EXCEPT !.pat = i], p |-> <<i>>, u |-> <<>>]
    [] k = "pmt" /\ s.pat # 0 -> [s |-> [s EXCEPT !.pmt = i], p |-> <<i>>, u |-> <<>>]
    [] k = "start" /\ s.pmt # 0 -> [s |-> [s EXCEPT !.since = <<i>>, !.unit = <<i>>, !.last = IF s.unit = <<>> THEN s.last ELSE <<s.unit>>],
                                     p |-> <<i>>, u |-> IF s.unit = <<>> THEN <<>> ELSE <<s.unit>>]
    [] k = "cont" /\ s.unit # <<>> -> [s |-> [s EXCEPT !.since = Append(@, i), !.unit = Append(@, i)], p |-> <<i>>, u |-> <<>>]
    [] OTHER -> [s |-> s, p |-> <<>>, u |-> <<>>]
RECURSIVE Many(_, _, _, _, _)
Many(s, ks, i, p, u) ==
  IF ks = <<>> THEN [s |-> s, p |-> p, u |-> u]
  ELSE LET o == One(s, Head(ks), i) IN Many(o.s, Tail(ks), i + 1, p \o o.p, u \o o.u)
(* a continuation before the first start of a known stream: left open *)
RECURSIVE Plain(_, _)
Plain(s, ks) == IF ks = <<>> THEN TRUE ELSE IF Head(ks) = "cont" /\ s.pmt # 0 /\ s.unit = <<>> THEN FALSE ELSE Plain(One(s, Head(ks), 1).s, Tail(ks))

None == [c \in All |-> <<>>]
Step(a, c, x, nm, ro, o, st, k, out, closed) ==
  /\ role' = ro /\ of' = o /\ str' = st /\ n' = n + k
  /\ left' = IF a = "tick" THEN 0 ELSE left + (IF a = "end" /\ role[c] # "pub" THEN 1 ELSE 0)
  /\ hist' = Append(hist, [a |-> a, c |-> c, x |-> x, n |-> nm, first |-> n + 1, out |-> out, closed |-> closed,
                           taken |-> {s \in N : st[s].pub # ""}, srt |-> {s \in N : st[s].by = "srt"},
                           left |-> left', on |-> {d \in All : ro[d] # "none"}])
Same(a, c, x, nm) == Step(a, c, x, nm, role, of, str, 0, None, {c})

Publish(c, s) ==
  /\ role[c] = "none"
  /\ IF str[s].pub # "" THEN Same("publish", c, "", s)
     ELSE Step("publish", c, "", s, [role EXCEPT ![c] = "pub"], [of EXCEPT ![c] = s],
               [str EXCEPT ![s] = [Free EXCEPT !.pub = c, !.by = IF c = "w" THEN "http" ELSE "srt"]], 0, None, {})
Refused(c) == role[c] = "none" /\ \E x \in Ids : Same("refused", c, x, CHOOSE s \in N : TRUE)
Play(c, s) ==
  /\ role[c] = "none"
  /\ IF c = "v" THEN (IF str[s].pub = "" THEN Same("play", c, "", s)
                      ELSE Step("play", c, "", s, [role EXCEPT ![c] = "play"], [of EXCEPT ![c] = s], str, 0, [None EXCEPT ![c] = str[s].last], {}))
     ELSE IF str[s].by # "srt" THEN Same("play", c, "", s)
     ELSE Step("play", c, "", s, [role EXCEPT ![c] = "play"], [of EXCEPT ![c] = s], str, 0,
               [None EXCEPT ![c] = Opt(str[s].pat) \o Opt(str[s].pmt) \o str[s].since], {})
Outs(s, m) == [c \in All |-> IF role[c] # "play" \/ of[c] # s THEN <<>> ELSE IF c = "v" THEN m.u ELSE m.p]
Gone(s, c) == [d \in All |-> IF d = c THEN "none" ELSE IF role[d] = "play" /\ of[d] = s THEN "stale" ELSE role[d]]
(* how: "" goes on; "end" goes at once; "gap" goes just when everything was read; "bad" sends something that is no transport packet *)
Put(c) ==
  /\ role[c] = "pub" /\ c # "w"
  /\ LET s == of[c] IN
     \/ \E q \in Menu, how \in {"", "end", "bad", "gap"} :
          /\ Plain(str[s], Puts[q])
          /\ LET ks == Puts[q]
                 m == Many(str[s], ks, n + 1, <<>>, <<>>)
             IN IF how = "" THEN Step("put", c, ks, s, role, of, [str EXCEPT ![s] = m.s], Len(ks), Outs(s, m), {})
                ELSE Step("put" \o how, c, ks, s, Gone(s, c), of, [str EXCEPT ![s] = Free], Len(ks), Outs(s, m), {c})
End(c) ==
  /\ role[c] # "none"
  /\ IF role[c] = "pub" THEN Step("end", c, "", of[c], Gone(of[c], c), of, [str EXCEPT ![of[c]] = Free], 0, None, {})
     ELSE Step("end", c, "", of[c], [role EXCEPT ![c] = "none"], of, str, 0, None, {})
(* nobody sends anything for longer than players wait *)
Tick == /\ \E c \in All : role[c] # "none"
        /\ LET idle == {c \in All : role[c] \in {"play", "stale"}}
           IN Step("tick", CHOOSE c \in All : role[c] # "none", "", "", [c \in All |-> IF c \in idle THEN "none" ELSE role[c]], of, str, 0, None, idle)
Next == Len(hist) < MaxOps /\
        ((\E c \in All : (Refused(c) /\ c \in C) \/ Put(c) \/ End(c) \/ (\E s \in N : (c # "v" /\ Publish(c, s)) \/ (c # "w" /\ Play(c, s)))) \/ Tick)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* a name has at most one publisher, and who publishes has the name *)
Single == \A s \in N : str[s].pub # "" => (role[str[s].pub] = "pub" /\ of[str[s].pub] = s)
Holder == \A c \in All : role[c] = "pub" => str[of[c]].pub = c
Alive == \A c \in All : role[c] = "play" => str[of[c]].pub # ""
(* everything a player ever got is in order and nothing twice: by its steps *)
Rows(c) == SelectSeq(hist, LAMBDA h : TRUE)
RECURSIVE Since(_, _)
Since(h, c) == IF h = <<>> THEN <<>>
               ELSE LET l == h[Len(h)]
                    IN IF l.c = c /\ l.a \in {"play", "end", "publish"} THEN (IF l.a = "play" THEN l.out[c] ELSE <<>>)
                       ELSE Since(SubSeq(h, 1, Len(h) - 1), c) \o l.out[c]
Rising(q) == \A k \in 1..Len(q) - 1 : q[k] < q[k + 1]
(* the packets since the last unit start are the unit; a joiner gets all of the unit it joins *)
Whole == \A s \in N : str[s].since = str[s].unit
Ordered == \A c \in C : role[c] \in {"play", "stale"} =>
             LET q == Since(hist, c) IN \A i, j \in 1..Len(q) : (i < j /\ i > 2) => q[i] < q[j]
Shape(s) == [s EXCEPT !.pat = IF @ = 0 THEN 0 ELSE 1, !.pmt = IF @ = 0 THEN 0 ELSE IF @ < s.pat THEN 1 ELSE 2, !.since = Len(@), !.unit = Len(@), !.last = Len(@)]
Last == IF hist = <<>> THEN <<>> ELSE LET h == hist[Len(hist)] IN <<h.a, h.c, h.x, h.n, h.closed, [c \in All |-> Len(h.out[c])]>>
GView == <<role, of, [s \in N |-> Shape(str[s])], Last>>
Emit == PrintT("B:" \o ToJson([ops |-> hist']))
EmitEnd == Len(hist') < MaxOps \/ PrintT("B:" \o ToJson([ops |-> hist']))
=============================================================================
