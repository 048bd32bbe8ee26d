------------------------------ MODULE ConfGen ------------------------------
(* Configuration files grown line by line; laws of their meaning checked on  *)
(* every one of them, and each is emitted and loaded by the real loader.     *)
EXTENDS Conf, TLC, Json
CONSTANTS Starts,    \* sequences of lines a file begins with
          Pool,      \* lines it grows by
          Noise,     \* lines that mean nothing
          Indents,   \* blanks
          Tails,     \* comments after the end of a line
          MaxLines
(* the bytes of printable text *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
B(s) == [i \in 1..Len(s) |-> 31 + CHOOSE j \in 1..Len(Printable) : SubSeq(Printable, j, j) = SubSeq(s, i, i)]
ASSUME \A t \in Types : \A o \in Options[t] : o.b = B(o.n) /\ o.d = B(o.t)
ASSUME \A k \in Known : KnownB[k] = B(k)
On == <<111, 110>>
Off == <<111, 102, 102>>
VARIABLES ls,        \* the lines
          st,        \* what they amount to
          k
vars == <<ls, st, k>>
All0 == Pool \cup {<<Close>>} \cup UNION {Range(f) : f \in Starts}
Read == [l \in All0 |-> Line(l)]
(* lines: noise says nothing; indentation and trailing comments change nothing; *)
(* a line without its end is none                                               *)
ASSUME \A n \in Noise : Line(n).k = "empty"
ASSUME \A l \in All0, n \in Indents : Line(n \o l \o n) = Line(l)
ASSUME \A l \in All0, n \in Tails : Line(l).k \in {"item", "start", "end", "empty"} => Line(l \o n) = Line(l)
ASSUME \A l \in All0 : Line(l).k \in {"item", "start", "end"} => Line(SelectSeq(l, LAMBDA c : c \notin {Semi, Open, Close})).k \in {"fail", "empty"}
X(q) == [i \in 1..Len(q) |-> Read[q[i]]]
Init == ls \in Starts /\ st = FoldX(Begin, X(ls)) /\ k = 0
Next == /\ k < MaxLines
        /\ st.v = "ok"
        /\ \E l \in Pool : ls' = Append(ls, l) /\ st' = StepX(st, Read[l])
        /\ k' = k + 1
Spec == Init /\ [][Next]_vars
Del(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
V == Finish(st)
(* braces match: one less or one more is an error *)
Braces == V.v = "ok" =>
           /\ \A j \in 1..Len(ls) : Read[ls[j]].k \in {"start", "end"} => LoadX(X(Del(ls, j))).v # "ok"
           /\ LoadX(X(Append(ls, <<Close>>))).v = "fail"
(* writing a loaded tree out with every option spelled out loads to the same tree *)
Word(b) == Tokens(b) # <<>> /\ Join(Tokens(b)) = b /\ LastB(b) \notin {Semi, Open, Close}
Show(q, v) == IF q.k = "bool" THEN (IF v = <<49>> THEN On ELSE Off) ELSE v
RECURSIVE Render(_)
RECURSIVE RenderAll(_)
RenderAll(q) == IF q = <<>> THEN <<>> ELSE Render(Head(q)) \o RenderAll(Tail(q))
Render(b) == LET os == SetToSeq({<<q, v>> \in Options[b.t] \X {p[2] : p \in b.o} : <<q.n, v>> \in b.o})
             IN <<KnownB[b.t] \o <<SP>> \o b.n \o <<SP, Open>>>>
                \o [j \in 1..Len(os) |-> os[j][1].b \o <<SP>> \o Show(os[j][1], os[j][2]) \o <<Semi>>]
                \o RenderAll(b.s) \o <<<<Close>>>>
Written == V.v = "ok" => LoadLines(RenderAll(V.root.s)) = V
(* hosts of global blocks are in effect in every server, own hosts only in their own *)
Servers(e) == IF "http" \in DOMAIN e.s THEN UNION {Range(h.s) : h \in Range(e.s["http"])} ELSE {}
Global == V.v = "ok" => \A sv \in Servers(Effective(V.root)) : \A h \in Range(GlobalHosts(V.root)) : \E x \in DOMAIN sv.s : x.n = h.n
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o <<LF>> \o Cat(Tail(q))
Emit == PrintT("B:" \o ToJson([text |-> Cat(ls')]))
=============================================================================
