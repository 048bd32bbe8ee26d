------------------------------- MODULE Conf --------------------------------
(* What a configuration text means: lines, blocks, options and their values. *)
(* Load(text) is [v |-> "ok", root |-> tree], "fail", or "any" where nothing *)
(* is promised (a repeated option, a number that is none, a '#' in a value). *)
EXTENDS Ascii
NUL == 0
(* ------------------------------------------------------------ vocabulary *)
(* an option: its name, the name's bytes, its kind, the bytes of its default    *)
(* (written out: TLC would convert them again at every use; ConfGen checks them) *)
Opt(n, b, k, t, d) == [n |-> n, b |-> b, k |-> k, t |-> t, d |-> d]
HostOpts == {
     Opt("enabled", <<101, 110, 97, 98, 108, 101, 100>>, "bool", "1", <<49>>),
     Opt("pass_proxy", <<112, 97, 115, 115, 95, 112, 114, 111, 120, 121>>, "str", "", <<>>),
     Opt("pass_url", <<112, 97, 115, 115, 95, 117, 114, 108>>, "str", "", <<>>),
     Opt("role", <<114, 111, 108, 101>>, "str", "edge", <<101, 100, 103, 101>>),
     Opt("type", <<116, 121, 112, 101>>, "str", "proxy", <<112, 114, 111, 120, 121>>),
     Opt("edge_avformat", <<101, 100, 103, 101, 95, 97, 118, 102, 111, 114, 109, 97, 116>>, "str", "-", <<45>>),
     Opt("ssl_key_file", <<115, 115, 108, 95, 107, 101, 121, 95, 102, 105, 108, 101>>, "str", "", <<>>),
     Opt("ssl_crt_file", <<115, 115, 108, 95, 99, 114, 116, 95, 102, 105, 108, 101>>, "str", "", <<>>)}
Options ==
  [root       |-> {},
   http       |-> {
     Opt("keepalive_timeout", <<107, 101, 101, 112, 97, 108, 105, 118, 101, 95, 116, 105, 109, 101, 111, 117, 116>>, "int", "10", <<49, 48>>),
     Opt("access_log", <<97, 99, 99, 101, 115, 115, 95, 108, 111, 103>>, "str", "access.log", <<97, 99, 99, 101, 115, 115, 46, 108, 111, 103>>)},
   server     |-> {
     Opt("listen_port", <<108, 105, 115, 116, 101, 110, 95, 112, 111, 114, 116>>, "int", "80", <<56, 48>>),
     Opt("server_name", <<115, 101, 114, 118, 101, 114, 95, 110, 97, 109, 101>>, "str", "", <<>>),
     Opt("transport", <<116, 114, 97, 110, 115, 112, 111, 114, 116>>, "str", "tcp", <<116, 99, 112>>),
     Opt("recv_timeout", <<114, 101, 99, 118, 95, 116, 105, 109, 101, 111, 117, 116>>, "big", "-1", <<45, 49>>),
     Opt("send_timeout", <<115, 101, 110, 100, 95, 116, 105, 109, 101, 111, 117, 116>>, "big", "-1", <<45, 49>>),
     Opt("reuse_port", <<114, 101, 117, 115, 101, 95, 112, 111, 114, 116>>, "bool", "0", <<48>>),
     Opt("backlog", <<98, 97, 99, 107, 108, 111, 103>>, "int", "1024", <<49, 48, 50, 52>>),
     Opt("ssl_key_file", <<115, 115, 108, 95, 107, 101, 121, 95, 102, 105, 108, 101>>, "str", "", <<>>),
     Opt("ssl_crt_file", <<115, 115, 108, 95, 99, 114, 116, 95, 102, 105, 108, 101>>, "str", "", <<>>)},
   host       |-> HostOpts,
   stream     |-> {
     Opt("avformat", <<97, 118, 102, 111, 114, 109, 97, 116>>, "str", "-", <<45>>),
     Opt("edge", <<101, 100, 103, 101>>, "bool", "1", <<49>>),
     Opt("pass_proxy", <<112, 97, 115, 115, 95, 112, 114, 111, 120, 121>>, "str", "-", <<45>>)},
   upstream   |-> {
     Opt("name", <<110, 97, 109, 101>>, "str", "unknown upstream name", <<117, 110, 107, 110, 111, 119, 110, 32, 117, 112, 115, 116, 114, 101, 97, 109, 32, 110, 97, 109, 101>>),
     Opt("server", <<115, 101, 114, 118, 101, 114>>, "str", "unknown upstream server", <<117, 110, 107, 110, 111, 119, 110, 32, 117, 112, 115, 116, 114, 101, 97, 109, 32, 115, 101, 114, 118, 101, 114>>),
     Opt("keepalive", <<107, 101, 101, 112, 97, 108, 105, 118, 101>>, "int", "10", <<49, 48>>)},
   globalhost |-> {}]
Types == DOMAIN Options
(* blocks a block may hold *)
Holds ==
  [root |-> {"http", "upstream", "globalhost"}, http |-> {"server"}, server |-> {"host"}, host |-> {"stream", "upstream"},
   globalhost |-> {"host"}, stream |-> {}, upstream |-> {}]
(* blocks that must not stand in for a value *)
NoItem == [root |-> {"http", "rtmp", "upstream", "globalhost"}, http |-> {"server"}, server |-> {"host"}, globalhost |-> {"host"}, host |-> {}, stream |-> {}, upstream |-> {}]
(* names of blocks that exist at all *)
Known == {"root", "http", "rtmp", "srt", "server", "host", "location", "stream", "upstream", "globalhost"}
(* blocks that refuse what they cannot hold; for the others nothing is promised *)
Strict == {"http", "server", "globalhost", "host"}
KnownB == [root |-> <<114, 111, 111, 116>>,
           http |-> <<104, 116, 116, 112>>,
           rtmp |-> <<114, 116, 109, 112>>,
           srt |-> <<115, 114, 116>>,
           server |-> <<115, 101, 114, 118, 101, 114>>,
           host |-> <<104, 111, 115, 116>>,
           location |-> <<108, 111, 99, 97, 116, 105, 111, 110>>,
           stream |-> <<115, 116, 114, 101, 97, 109>>,
           upstream |-> <<117, 112, 115, 116, 114, 101, 97, 109>>,
           globalhost |-> <<103, 108, 111, 98, 97, 108, 104, 111, 115, 116>>]
TypeOf(b) == LET S == {k \in Known : KnownB[k] = b} IN IF S = {} THEN "" ELSE CHOOSE k \in S : TRUE

(* ------------------------------------------------------------------ lines *)
Blank == {9, 11, 12, 13, 32}
Semi == 59
Open == 123
Close == 125
Hash == 35
Tokens(l) == LET st == SetToSortSeq({i \in 1..Len(l) : l[i] \notin Blank /\ (i = 1 \/ l[i - 1] \in Blank)}, <)
                 en == SetToSortSeq({i \in 1..Len(l) : l[i] \notin Blank /\ (i = Len(l) \/ l[i + 1] \in Blank)}, <)
             IN Now([k \in 1..Len(st) |-> SubSeq(l, st[k], en[k])])
RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<SP>> \o Join(Tail(ts))
LastB(t) == t[Len(t)]
L(k, n, a) == [k |-> k, name |-> n, arg |-> a]
(* the kind of a line: "empty", "item", "start", "end", "fail", "any" *)
Line(l) ==
  LET ts == Tokens(l)
      es == {i \in 1..Len(ts) : LastB(ts[i]) \in {Semi, Open, Close}}
  IN IF ts = <<>> THEN L("empty", <<>>, <<>>)
     ELSE IF ts[1][1] = Hash THEN L("empty", <<>>, <<>>)
     ELSE IF es = {} THEN L(IF \E i \in 1..Len(ts) : ts[i][1] = Hash THEN "any" ELSE "fail", <<>>, <<>>)
     ELSE LET e == Min(es)
              z == LastB(ts[e])
              words == SubSeq(ts, 1, e - 1) \o (IF Len(ts[e]) > 1 THEN <<SubSeq(ts[e], 1, Len(ts[e]) - 1)>> ELSE <<>>)
          IN IF \E i \in 1..e : ts[i][1] = Hash THEN L("any", <<>>, <<>>)
             ELSE IF e < Len(ts) /\ ts[e + 1][1] # Hash THEN L("fail", <<>>, <<>>)
             ELSE IF z = Close THEN (IF e = 1 /\ Len(ts[1]) = 1 THEN L("end", <<>>, <<>>) ELSE L("fail", <<>>, <<>>))
             ELSE IF e = 1 THEN L(IF z = Open /\ Len(ts[1]) > 1 THEN "any" ELSE "fail", <<>>, <<>>)
             ELSE L(IF z = Semi THEN "item" ELSE "start", words[1], Join(Tail(words)))
TextLines(t) == LET ps == Split(t, LF) IN IF ps[Len(ps)] = <<>> THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps

(* ----------------------------------------------------------------- values *)
(* the value an argument gives an option, or <<NUL>>: not promised *)
(* a number of at most n digits, written as it is printed: 9 digits fit 32 bits, 18 fit 64 *)
IntArg(a, n) == LET d == IF a # <<>> /\ a[1] = 45 THEN Tail(a) ELSE a
                IN d # <<>> /\ Len(d) <= n /\ All(d, Digit) /\ (Len(d) = 1 \/ d[1] # 48) /\ (d = <<48>> => a = d)
Value(k, a) == CASE k = "str" -> a
                 [] k = "int" -> IF IntArg(a, 9) THEN a ELSE <<NUL>>
                 [] k = "big" -> IF IntArg(a, 18) THEN a ELSE <<NUL>>
                 [] k = "bool" -> IF a = <<111, 110>> THEN <<49>> ELSE IF a = <<111, 102, 102>> THEN <<48>> ELSE <<NUL>>

(* ----------------------------------------------------------------- blocks *)
(* an open block: its type, name, options given so far, finished blocks *)
Fresh(t, n) == [t |-> t, n |-> n, o |-> <<>>, s |-> <<>>]
Done(b) == [t |-> b.t, n |-> b.n, s |-> b.s,
            o |-> {<<q.n, LET g == {i \in 1..Len(b.o) : b.o[i][1] = q.n} IN IF g = {} THEN q.d ELSE b.o[Min(g)][2]>> : q \in Options[b.t]}]
St(v, st) == [v |-> v, st |-> st]
Top(s) == s.st[Len(s.st)]
SetTop(s, b) == St("ok", [s.st EXCEPT ![Len(s.st)] = b])
ItemStep(s, x) ==
  LET b == Top(s)
      q == {o \in Options[b.t] : o.b = x.name}
  IN IF \E k \in NoItem[b.t] : KnownB[k] = x.name THEN St("fail", <<>>)
     ELSE IF q = {} THEN s
     ELSE LET o == CHOOSE o \in q : TRUE
              w == Value(o.k, x.arg)
          IN IF w = <<NUL>> \/ \E i \in 1..Len(b.o) : b.o[i][1] = o.n THEN St("any", <<>>)
             ELSE SetTop(s, [b EXCEPT !.o = Append(@, <<o.n, w>>)])
StartStep(s, x) ==
  LET b == Top(s)
      t == TypeOf(x.name)
  IN IF t = "" THEN St("fail", <<>>)
     ELSE IF t \notin Holds[b.t] THEN St(IF b.t \in Strict THEN "fail" ELSE "any", <<>>)
     ELSE IF t = "host" /\ x.arg = <<>> THEN St("fail", <<>>)
     ELSE IF b.t = "host" /\ \E i \in 1..Len(b.s) : b.s[i].t = t THEN St("any", <<>>)
     ELSE St("ok", Append(s.st, Fresh(t, x.arg)))
EndStep(s) == IF Len(s.st) = 1 THEN St("fail", <<>>)
              ELSE LET n == Len(s.st)
                   IN St("ok", [SubSeq(s.st, 1, n - 1) EXCEPT ![n - 1].s = Append(@, Done(s.st[n]))])
StepX(s, x) == IF s.v # "ok" THEN s
               ELSE CASE x.k = "empty" -> s
                      [] x.k = "item"  -> ItemStep(s, x)
                      [] x.k = "start" -> StartStep(s, x)
                      [] x.k = "end"   -> EndStep(s)
                      [] OTHER         -> St(x.k, <<>>)
Step(s, l) == StepX(s, Line(l))
Fold(s, ls) == FoldLeft(Step, s, ls)
Begin == St("ok", <<Fresh("root", <<>>)>>)
Finish(s) == IF s.v # "ok" THEN [v |-> s.v]
             ELSE IF Len(s.st) > 1 THEN [v |-> "fail"]
             ELSE [v |-> "ok", root |-> Done(s.st[1])]
FoldX(s, xs) == FoldLeft(StepX, s, xs)
LoadLines(ls) == Finish(Fold(Begin, ls))
LoadX(xs) == Finish(FoldX(Begin, xs))       \* of lines already read
Load(t) == IF \E i \in 1..Len(t) : t[i] = NUL THEN [v |-> "any"] ELSE LoadLines(TextLines(t))

(* ------------------------------------------------ what is in effect after *)
(* the hosts of every global block belong to every server *)
RECURSIVE CatS(_)
CatS(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs).s \o CatS(Tail(bs))
GlobalHosts(root) == CatS(SelectSeq(root.s, LAMBDA b : b.t = "globalhost"))
Bag(q) == LET S == Range(q) IN [x \in S |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
ByType(q) == [t \in {q[i].t : i \in 1..Len(q)} |-> SelectSeq(q, LAMBDA b : b.t = t)]
RECURSIVE Eff(_, _)
Eff(b, g) ==
  LET s == Now([i \in 1..Len(b.s) |-> Eff(b.s[i], g)])
  IN [t |-> b.t, n |-> b.n, o |-> b.o,
      s |-> IF b.t = "server" THEN Bag(s \o g) ELSE IF b.t \in {"root", "host"} THEN ByType(s) ELSE s]
Effective(root) == LET gs == GlobalHosts(root) IN Eff(root, Now([i \in 1..Len(gs) |-> Eff(gs[i], <<>>)]))
=============================================================================
