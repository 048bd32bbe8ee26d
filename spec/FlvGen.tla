------------------------------- MODULE FlvGen -------------------------------
(* Sequences of packets; the specification's own round trip is an invariant,  *)
(* and every sequence is emitted for the real muxer and demuxer, as packets   *)
(* and as the head bytes of each tag (payloads are chosen by the harness).    *)
EXTENDS FlvFmt, TLC, Json, FiniteSets
CONSTANTS Kinds, Sizes, Stamps, Ctss, AFlags, VFlags, PTypes, MaxLen, Small, Last
VARIABLES ps, heads, prev
vars == <<ps, heads, prev>>

Pkts == [kind : Kinds \cap {"script"}, dts : Stamps, cts : {<<0, 0, 0>>}, flags : {0}, ptype : {0}, n : Sizes]
        \cup [kind : Kinds \cap {"audio"}, dts : Stamps, cts : {<<0, 0, 0>>}, flags : AFlags, ptype : PTypes, n : Sizes]
        \cup {p \in [kind : Kinds \cap {"video"}, dts : Stamps, cts : Ctss, flags : VFlags, ptype : PTypes, n : Sizes] :
                Info(p.flags) => p.cts = <<0, 0, 0>> /\ p.ptype = 0}

Init == ps = <<>> /\ heads = <<>> /\ prev = 0
Add(p) == /\ Len(ps) < MaxLen
          /\ ps' = Append(ps, p)
          /\ heads' = Append(heads, TagHead(p, p.n, prev))
          /\ prev' = TagSize(p, p.n)
Next == \E p \in Pkts : Add(p)
Spec == Init /\ [][Next]_vars

(* concrete payloads, small cases only *)
Fill(n, k) == [i \in 1..n |-> (i * 29 + k * 71) % 256]
Conc == [i \in 1..Len(ps) |-> [kind |-> ps[i].kind, dts |-> ps[i].dts, cts |-> ps[i].cts, flags |-> ps[i].flags,
                               ptype |-> ps[i].ptype, data |-> Fill(ps[i].n, i)]]
RoundTrip == Small => /\ Demux(Mux(Conc)) = Conc
                      /\ Mux(Demux(Mux(Conc))) = Mux(Conc)
(* the symbolic heads are the bytes that Mux writes *)
RECURSIVE Join(_, _)
Join(hs, k) == IF hs = <<>> THEN <<>> ELSE Head(hs) \o Conc[k].data \o Join(Tail(hs), k + 1)
HeadsOK == Small => Header \o Join(heads, 1) = Mux(Conc)
(* every prefix of a well-formed file yields exactly the packets it contains whole *)
PrefixOK == (Small /\ Len(ps) = 2) =>
   LET b == Mux(Conc) IN
   \A c \in 0..Len(b) : Demux(SubSeq(b, 1, c)) \in {<<>>, <<Conc[1]>>, Conc}
Emit == Len(ps') # MaxLen \/ PrintT("B:" \o ToJson([ps |-> ps', heads |-> heads']))
EmitEvery == PrintT("B:" \o ToJson([ps |-> ps', heads |-> heads']))
=============================================================================
