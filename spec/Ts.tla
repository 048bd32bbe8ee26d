--------------------------------- MODULE Ts ---------------------------------
(* MPEG transport streams (ISO/IEC 13818-1), byte level: tables, PES          *)
(* assembly and what is delivered.  A step maps one 188-byte packet to the    *)
(* set of states a demuxer may be in afterwards: one state for packets that   *)
(* are in order; for malformed ones it may report an error, which is final    *)
(* (alive FALSE), or go on without the packet.  "any" marks what is left open.*)
EXTENDS Ascii, Bitwise
A == INSTANCE Annexb
D == INSTANCE Adts
\* ------------------------------------------------------------- the packet
Pid(b) == (b[2] % 32) * 256 + b[3]
Pusi(b) == (b[2] \div 64) % 2 = 1
Tei(b) == b[2] > 127
Scrambled(b) == b[4] > 63
Afc(b) == (b[4] \div 16) % 4
Cc(b) == b[4] % 16
HasPay(b) == Afc(b) \in {1, 3}
HasAf(b) == Afc(b) \in {2, 3}
Fl(x, w) == (x \div w) % 2
(* the fields of the adaptation field fit into it *)
AfOK(b) ==
  LET n == b[5] IN
  /\ n <= 183
  /\ n > 0 =>
     LET f == b[6]
         k == 1 + 6 * Fl(f, 16) + 6 * Fl(f, 8) + Fl(f, 4)
     IN /\ k + Fl(f, 2) <= n
        /\ Fl(f, 2) = 1 => k + 1 + b[5 + k + 1] <= n
(* an extension that does not fit is left open *)
ExtOpen(b) == b[5] > 0 /\ b[5] <= 183 /\ Fl(b[6], 1) = 1
Discont(b) == HasAf(b) /\ b[5] > 0 /\ Fl(b[6], 128) = 1
Payload(b) == IF ~HasPay(b) THEN <<>> ELSE From(b, IF HasAf(b) THEN 6 + b[5] ELSE 5)
\* ------------------------------------------------------------- CRC-32/MPEG
Poly == <<4, 193, 29, 183>>
Shl(c) == LET s == <<(2 * c[1] + (c[2] \div 128)) % 256, (2 * c[2] + (c[3] \div 128)) % 256, (2 * c[3] + (c[4] \div 128)) % 256, (2 * c[4]) % 256>>
          IN IF c[1] > 127 THEN <<s[1] ^^ Poly[1], s[2] ^^ Poly[2], s[3] ^^ Poly[3], s[4] ^^ Poly[4]>> ELSE s
CrcByte(c, x) == Shl(Shl(Shl(Shl(Shl(Shl(Shl(Shl(<<c[1] ^^ x, c[2], c[3], c[4]>>))))))))
Crc(s) == FoldLeft(CrcByte, <<255, 255, 255, 255>>, s)
\* ------------------------------------------------------------- sections
(* the section that starts in payload p: "none", "open", "bad" or "sec"       *)
Section(p) ==
  IF p = <<>> THEN [v |-> "bad"]
  ELSE LET i == 2 + p[1] IN
  IF i + 7 > Len(p) THEN [v |-> "bad"]
  ELSE LET n == (p[i + 1] % 16) * 256 + p[i + 2]
           e == i + 2 + n                        \* its last byte
       IN IF e > Len(p) THEN [v |-> IF n > 1021 THEN "bad" ELSE "open"]
          ELSE IF n < 9 THEN [v |-> "bad"]
          ELSE [v |-> IF e < Len(p) /\ p[e + 1] # 255 THEN "open" ELSE "sec",
                table |-> p[i], current |-> p[i + 5] % 2 = 1, body |-> SubSeq(p, i + 8, e - 4),
                crc |-> Crc(SubSeq(p, i, e)) = <<0, 0, 0, 0>>]
U16(s, i) == s[i] * 256 + s[i + 1]
PatEntries(s) == Now([k \in 1..(Len(s) \div 4) |-> [prog |-> U16(s, 4 * k - 3), pid |-> U16(s, 4 * k - 1) % 8192]])
RECURSIVE EsLoop(_, _)
EsLoop(s, i) ==
  IF i > Len(s) THEN [v |-> "ok", l |-> <<>>]
  ELSE IF i + 4 > Len(s) THEN [v |-> "bad", l |-> <<>>]
  ELSE LET n == U16(s, i + 3) % 4096 IN
       IF i + 4 + n > Len(s) THEN [v |-> "bad", l |-> <<>>]
       ELSE LET r == EsLoop(s, i + 5 + n) IN [v |-> r.v, l |-> <<[type |-> s[i], pid |-> U16(s, i + 1) % 8192]>> \o r.l]
Pmt(s) == IF Len(s) < 4 THEN [v |-> "bad", l |-> <<>>]
          ELSE LET n == U16(s, 3) % 4096 IN
               IF n > 1023 THEN [v |-> "open", l |-> <<>>]
               ELSE IF 4 + n > Len(s) THEN [v |-> "bad", l |-> <<>>] ELSE EsLoop(s, 5 + n)
\* ------------------------------------------------------------- state
Kind(t) == CASE t = 15 -> "aac" [] t = 27 -> "h264" [] t = 36 -> "h265" [] OTHER -> "other"
NoPes == [on |-> FALSE, b |-> <<>>, want |-> 0, pts |-> <<>>, dts |-> <<>>]
Fresh(pid, type) == [pid |-> pid, type |-> type, cc |-> 99, last |-> <<>>, pes |-> NoPes]
Start == [alive |-> TRUE, v |-> "ok", pmts |-> {}, es |-> <<>>, sv |-> A!None, sa |-> D!Nothing, video |-> <<>>, audio |-> <<>>]
Index(st, pid) == LET s == {k \in 1..Len(st.es) : st.es[k].pid = pid} IN IF s = {} THEN 0 ELSE Min(s)
Open(st) == {[st EXCEPT !.v = "any"]}
Stop(st) == [st EXCEPT !.alive = FALSE]
Either(st) == {st, Stop(st)}
\* ------------------------------------------------------------- delivery
(* 33 bits in base 32768, at 90 kHz, to ms *)
Ms(t) == FoldLeft(LAMBDA a, x : LET y == a.r * 32768 + x IN [q |-> a.q * 32768 + y \div 90, r |-> y % 90], [q |-> 0, r |-> 0], t).q
NoTime == 0 - 1
Complete(p) == p.want < 0 \/ Len(p.b) = p.want
Timed(out, p) == IF p.pts = <<>> THEN Now([k \in 1..Len(out) |-> IF out[k].c THEN out[k] ELSE [out[k] EXCEPT !.d = NoTime]]) ELSE out
(* the states after the PES packet in assembly at k has been handed over *)
Hand(st, k) ==
  LET e == st.es[k]
      p == e.pes
      s0 == [st EXCEPT !.es[k].pes = NoPes]
  IN IF ~p.on THEN {s0}
     ELSE LET d == Ms(p.dts)
              t == Ms(p.pts)
          IN CASE Kind(e.type) = "h264" ->
                    LET w == A!Au(st.sv, p.b, d, t) IN
                    IF w.v = "any" THEN Open(st)
                    ELSE IF w.v = "fail" THEN Either(s0)
                    ELSE {[s0 EXCEPT !.sv = w.st, !.video = @ \o Timed(w.out, p)]}
               [] Kind(e.type) = "aac" ->
                    LET f == D!Frames(p.b, 1) IN
                    IF f.v = "any" THEN Open(st)
                    ELSE IF f.v = "fail" THEN Either(s0)
                    ELSE {[s0 EXCEPT !.sa = D!After(st.sa, f.fs),
                                     !.audio = Append(@, [st |-> st.sa, fs |-> f.fs, d |-> IF p.pts = <<>> THEN NoTime ELSE d])]}
               [] OTHER -> {s0}
(* ended by the start of the next one: complete ones are due *)
Flush(st, k) ==
  IF ~st.es[k].pes.on \/ Complete(st.es[k].pes) THEN Hand(st, k)
  ELSE Hand(st, k) \cup Either([st EXCEPT !.es[k].pes = NoPes])
\* ------------------------------------------------------------- PES packets
Stamp(p, i) == <<(p[i] \div 2) % 8, (p[i + 1] * 256 + p[i + 2]) \div 2, (p[i + 3] * 256 + p[i + 4]) \div 2>>
Marked(p, i) == p[i] % 2 = 1 /\ p[i + 2] % 2 = 1 /\ p[i + 4] % 2 = 1
(* size of the optional fields that flags f announce; p[i] is the first *)
ExtSize(p, i) ==
  IF i > Len(p) THEN 9999
  ELSE LET f == p[i]
           a == i + 1 + 16 * Fl(f, 128)
           b == IF Fl(f, 64) = 0 THEN a ELSE IF a > Len(p) THEN 9999 ELSE a + 1 + p[a]
           c == b + 2 * Fl(f, 32) + 2 * Fl(f, 16)
           d == IF Fl(f, 1) = 0 THEN c ELSE IF c > Len(p) THEN 9999 ELSE c + 1 + (p[c] % 128)
       IN d - i
FieldSize(p) ==
  LET f == p[8]
      a == 5 * Fl(f, 128) + 5 * Fl(f, 64) + 6 * Fl(f, 32) + 3 * Fl(f, 16) + Fl(f, 8) + Fl(f, 4) + 2 * Fl(f, 2)
  IN IF Fl(f, 1) = 0 THEN a ELSE a + ExtSize(p, 10 + a)
(* payload p begins a PES packet *)
Begin(p) ==
  IF Len(p) < 9 THEN [v |-> "open"]
  ELSE IF p[1] # 0 \/ p[2] # 0 \/ p[3] # 1 THEN [v |-> "bad"]
  ELSE IF p[4] = 190 THEN [v |-> "pad"]
  ELSE IF p[4] \in {188, 191, 240, 241, 255, 242, 248} \/ p[7] \div 64 # 2 THEN [v |-> "open"]
  ELSE LET n == U16(p, 5)
           h == p[9]
           fl == p[8] \div 64
       IN IF fl = 1 THEN [v |-> "open"]
          ELSE IF n > 0 /\ n < 3 + h THEN [v |-> "bad"]
          ELSE IF FieldSize(p) > h THEN [v |-> "bad"]
          ELSE IF 9 + h > Len(p) THEN [v |-> "open"]
          ELSE IF (fl >= 2 /\ ~Marked(p, 10)) \/ (fl = 3 /\ ~Marked(p, 15)) THEN [v |-> "open"]
          ELSE LET pts == IF fl >= 2 THEN Stamp(p, 10) ELSE <<>>
                   want == IF n = 0 THEN NoTime ELSE n - 3 - h
                   b == From(p, 10 + h)
               IN [v |-> "pes", pes |-> [on |-> TRUE, want |-> want, b |-> IF want >= 0 THEN Cut(b, 1, want) ELSE b,
                                         pts |-> pts, dts |-> IF fl = 3 THEN Stamp(p, 15) ELSE pts]]
(* in order after the continuity check *)
Take(st, k, b) ==
  LET p == Payload(b)
      e == st.es[k]
  IN IF ~Pusi(b)
     THEN IF ~e.pes.on THEN {st}
          ELSE LET x == e.pes.b \o p IN
               {[st EXCEPT !.es[k].pes.b = IF e.pes.want >= 0 THEN Cut(x, 1, e.pes.want) ELSE x]}
     ELSE LET g == Begin(p) IN
          IF g.v = "open" THEN Open(st)
          ELSE UNION {IF ~s.alive \/ s.v = "any" THEN {s}
                      ELSE CASE g.v = "bad" -> {s, Stop(s), Stop(st)}
                             [] g.v = "pad" -> {s}
                             [] OTHER -> {[s EXCEPT !.es[k].pes = g.pes]} : s \in Flush(st, k)}
Es(st, k, b) ==
  LET e == st.es[k]
      c == Cc(b)
      s1 == [st EXCEPT !.es[k].cc = c, !.es[k].last = b]
      (* without the PES packet that lost a piece; one that is known to be complete lost nothing *)
      cut == {[s1 EXCEPT !.es[k].pes = NoPes]}
      s2 == IF e.pes.on /\ e.pes.want >= 0 /\ Complete(e.pes) THEN Hand(s1, k) ELSE cut
      After(S) == UNION {IF ~s.alive \/ s.v = "any" THEN {s} ELSE Take(s, k, b) : s \in S}
  IN IF e.cc = 99 \/ c = (e.cc + 1) % 16
     THEN IF Discont(b) THEN Take(s1, k, b) \cup After(s2 \cup cut) \cup {Stop(st)} ELSE Take(s1, k, b)
     ELSE IF c = e.cc THEN IF Discont(b) \/ From(b, 5) # From(e.last, 5) THEN Open(st) ELSE {st}
     ELSE After(s2) \cup {Stop(st)}
\* ------------------------------------------------------------- tables
Announce(st, l) ==
  IF \E x \in Range(l) : Kind(x.type) # "other" /\ (x.pid = 0 \/ x.pid = 17 \/ x.pid = 8191 \/ x.pid \in st.pmts \/ (Index(st, x.pid) > 0 /\ st.es[Index(st, x.pid)].type # x.type)) THEN Open(st)
  ELSE LET n == FoldLeft(LAMBDA s, x : IF Kind(x.type) = "other" \/ Index(s, x.pid) > 0 THEN s ELSE [s EXCEPT !.es = Append(@, Fresh(x.pid, x.type))], st, l)
       IN IF \E i, j \in 1..Len(n.es) : i < j /\ n.es[i].type = n.es[j].type /\ n.es[i].type # 36 THEN Open(st) ELSE {n}
Psi(st, b, want) ==
  IF ~HasPay(b) THEN {st}
  ELSE IF ~Pusi(b) THEN Either(st)
  ELSE LET s == Section(Payload(b)) IN
       CASE s.v = "open" -> Open(st)
         [] s.v = "bad" -> Either(st)
         [] s.table # want -> {st}
         [] OTHER ->
            LET ok == IF want = 0
                      THEN LET l == SelectSeq(PatEntries(s.body), LAMBDA x : x.prog # 0) IN
                           IF \E x \in Range(l) : x.pid = 0 \/ x.pid = 17 \/ x.pid = 8191 \/ Index(st, x.pid) > 0 THEN Open(st)
                           ELSE LET n == [st EXCEPT !.pmts = @ \cup {x.pid : x \in Range(l)}] IN
                                IF Len(s.body) % 4 # 0 THEN Either(st) \cup {n} ELSE {n}
                      ELSE LET t == Pmt(s.body) IN
                           IF t.v = "bad" THEN Either(st) ELSE IF t.v = "open" THEN Open(st) ELSE Announce(st, t.l)
            IN IF s.crc /\ s.current THEN ok ELSE ok \cup Either(st)
\* ------------------------------------------------------------- one packet
Known(st, pid) == pid = 0 \/ pid \in st.pmts \/ Index(st, pid) > 0
Body(st, b) ==
  LET pid == Pid(b) IN
  IF pid = 0 THEN Psi(st, b, 0)
  ELSE IF pid \in st.pmts THEN Psi(st, b, 2)
  ELSE IF Index(st, pid) > 0 THEN (IF HasPay(b) THEN Es(st, Index(st, pid), b) ELSE {st})
  ELSE IF pid = 17 THEN                    \* the service description, of no use here
       (IF HasPay(b) /\ Pusi(b) /\ Section(Payload(b)).v = "bad" THEN Either(st) ELSE {st})
  ELSE {st}
Step(st, b) ==
  IF ~st.alive \/ st.v = "any" THEN {st}
  ELSE IF b[1] # 71 THEN {Stop(st)} \cup Open(st)
  ELSE IF HasAf(b) /\ ~AfOK(b) THEN Either(st)
  ELSE IF (HasAf(b) /\ (ExtOpen(b) \/ (Afc(b) = 3 /\ b[5] = 183))) \/ Tei(b) \/ Scrambled(b) THEN Body(st, b) \cup Either(st)
  ELSE Body(st, b)
Run(pkts) == FoldLeft(LAMBDA S, b : UNION {Step(s, b) : s \in S}, {Start}, pkts)
\* ------------------------------------------------------------- judging
SameVideo(w, o) == w.c = o.c /\ w.b = o.b /\ w.f = o.f /\ (~w.c /\ w.d # NoTime => w.d = o.d /\ w.p = o.p)
VideoIs(w, o) == Len(w) = Len(o) /\ \A k \in 1..Len(w) : SameVideo(w[k], o[k])
(* the audio packets are o: consume buffer by buffer *)
RECURSIVE AudioIs(_, _)
AudioIs(w, o) ==
  IF w = <<>> THEN o = <<>>
  ELSE \E n \in {k \in 0..Len(o) : k >= Len(w[1].fs) /\ k <= 2 * Len(w[1].fs)} :
         /\ (IF w[1].d = NoTime THEN D!SameButTime(w[1].st, w[1].fs, SubSeq(o, 1, n)) ELSE D!Same(w[1].st, w[1].fs, 1, SubSeq(o, 1, n), 1, w[1].d))
         /\ AudioIs(Tail(w), From(o, n + 1))
(* what else may have been delivered when the stream ends: complete PES       *)
(* packets whose end is known, and the open ones                              *)
Endings(st) ==
  LET on == {k \in 1..Len(st.es) : st.es[k].pes.on}
      S1(S, k) == UNION {{s} \cup (IF s.v = "any" THEN {} ELSE Hand(s, k)) : s \in S}
  IN FoldLeft(S1, {st}, SetToSortSeq(on, <))
Explains(st, video, audio) == \E s \in Endings(st) : s.v = "any" \/ (VideoIs(s.video, video) /\ AudioIs(s.audio, audio))
Judge(pkts, video, audio) ==
  LET S == Run(pkts) IN
  IF \E s \in S : s.v = "any" THEN "any"
  ELSE IF \E s \in S : Explains(s, video, audio) THEN "ok" ELSE "bad"
=============================================================================
