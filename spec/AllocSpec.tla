----------------------------- MODULE AllocSpec -----------------------------
(* Abstract specification of allocation accounting (C16). Allocators 1..NK    *)
(* have names and are accounted for; allocator 0 is not named. Regions,       *)
(* frames and log subscriptions come along because accounting must not be     *)
(* disturbed by them. A report is what finalization would print and do now.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NK, NO
Names == 1..NK
Objs == 1..NO
Gone == [on |-> FALSE, k |-> 0, n |-> 0]
NoStat == [al |-> 0, fr |-> 0, as |-> 0, fs |-> 0, cur |-> 0, hi |-> 0]
Fresh == [obj |-> [o \in Objs |-> Gone], st |-> [k \in Names |-> NoStat], reg |-> <<>>, frame |-> FALSE,
          sub |-> FALSE, busy |-> 0, fins |-> <<>>]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(a, b) == IF a > b THEN a ELSE b
FreeObjs(s) == {o \in Objs : ~s.obj[o].on}
Live(s) == {o \in Objs : s.obj[o].on}
Took(x, n) == [x EXCEPT !.al = @ + 1, !.as = @ + n, !.cur = @ + n, !.hi = Max(@, x.cur + n)]
Gave(x, n) == [x EXCEPT !.fr = @ + 1, !.fs = @ + n, !.cur = @ - n]
\* the memory of object o is given back
Free(s, o) == LET b == s.obj[o]
                  z == [s EXCEPT !.obj[o] = Gone]
              IN IF b.k = 0 THEN z ELSE [z EXCEPT !.st[b.k] = Gave(@, b.n)]
\* size of what a busy subscriber allocates and frees for every message
BusySize == 24
Legal(s, e) ==
    CASE e.op = "al" -> FreeObjs(s) # {}
      [] e.op = "fr" -> s.obj[e.o].on
      [] e.op \in {"az", "fz", "log"} -> TRUE
      [] e.op = "fin" -> TRUE
      [] e.op = "rb" -> Len(s.reg) < 4
      [] e.op \in {"ra", "re"} -> s.reg # <<>>
      [] e.op = "fb" -> ~s.frame
      [] e.op = "fe" -> s.frame
      [] e.op = "sub" -> ~s.sub
      [] e.op = "unsub" -> s.sub
      [] OTHER -> FALSE
After(s, e) ==
    CASE e.op = "al" -> LET o == Least(FreeObjs(s))
                            z == [s EXCEPT !.obj[o] = [on |-> TRUE, k |-> e.k, n |-> e.n]]
                        IN IF e.k = 0 THEN z ELSE [z EXCEPT !.st[e.k] = Took(@, e.n)]
      [] e.op = "fr" -> Free(s, e.o)
      [] e.op = "fin" -> [s EXCEPT !.fins = Append(@, e.o)]
      [] e.op = "rb" -> [s EXCEPT !.reg = Append(@, 0)]
      [] e.op = "ra" -> [s EXCEPT !.reg[Len(s.reg)] = @ + e.n]
      [] e.op = "re" -> [s EXCEPT !.reg = SubSeq(@, 1, Len(@) - 1)]
      [] e.op = "fb" -> [s EXCEPT !.frame = TRUE]
      [] e.op = "fe" -> [s EXCEPT !.frame = FALSE]
      [] e.op = "sub" -> [s EXCEPT !.sub = TRUE, !.busy = e.k]
      [] e.op = "unsub" -> [s EXCEPT !.sub = FALSE, !.busy = 0]
      [] e.op = "log" -> IF s.busy = 0 THEN s ELSE [s EXCEPT !.st[s.busy] = Gave(Took(@, BusySize), BusySize)]
      [] OTHER -> s
\* finalizers: 0 does nothing, o frees object o if there is one
RECURSIVE Final(_, _)
Final(s, q) == IF q = <<>> THEN s
               ELSE Final(IF Head(q) # 0 /\ s.obj[Head(q)].on THEN Free(s, Head(q)) ELSE s, Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Row(s, k) == LET x == s.st[k] IN <<k, x.al, x.fr, x.hi, x.as, x.fs, x.cur>>
Rows(s) == {Row(s, k) : k \in {j \in Names : s.st[j].al > 0}}
=============================================================================
