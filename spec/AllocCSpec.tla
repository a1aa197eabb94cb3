----------------------------- MODULE AllocCSpec -----------------------------
(* Allocation accounting with several threads (C16): every allocation and     *)
(* every free is accounted for in one step, between its call and its return.  *)
(* Memory may be freed by another thread than the one that allocated it.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NV, NK
Threads == 0..NT
Users == 1..NT
Vars == 1..NV
Names == 1..NK
None == [op |-> "none", ph |-> 2, v |-> 0]
Gone == [k |-> -1, n |-> 0]
NoStat == [al |-> 0, fr |-> 0, as |-> 0, fs |-> 0, cur |-> 0, hi |-> 0]
Begin == [var |-> [t \in Users |-> [j \in Vars |-> Gone]], box |-> [t \in Users |-> <<>>],
          st |-> [k \in Names |-> NoStat], done |-> {}, pend |-> [t \in Threads |-> None]]
Max(a, b) == IF a > b THEN a ELSE b
Took(x, n) == [x EXCEPT !.al = @ + 1, !.as = @ + n, !.cur = @ + n, !.hi = Max(@, x.cur + n)]
Gave(x, n) == [x EXCEPT !.fr = @ + 1, !.fs = @ + n, !.cur = @ - n]
Idle(s, t) == s.pend[t].op = "none"
Legal(s, e) ==
    /\ Idle(s, e.t)
    /\ CASE e.op = "al" -> s.var[e.t][e.j].k = -1
         [] e.op = "fr" -> s.var[e.t][e.j].k # -1
         [] e.op = "give" -> s.var[e.t][e.j].k # -1 /\ e.u # e.t
         [] e.op = "take" -> s.var[e.t][e.j].k = -1
Called(s, e) == [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, v |-> 0]]
Fin(s, t, v) == [s EXCEPT !.pend[t].ph = 2, !.pend[t].v = v]
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE LET e == p.e IN
    CASE e.op = "al" -> LET z == [s EXCEPT !.var[t][e.j] = [k |-> e.k, n |-> e.n]]
                        IN {Fin(IF e.k = 0 THEN z ELSE [z EXCEPT !.st[e.k] = Took(@, e.n)], t, 0)}
      [] e.op = "fr" -> LET x == s.var[t][e.j]
                            z == [s EXCEPT !.var[t][e.j] = Gone]
                        IN {Fin(IF x.k = 0 THEN z ELSE [z EXCEPT !.st[x.k] = Gave(@, x.n)], t, 0)}
      [] e.op = "give" -> {Fin([s EXCEPT !.var[t][e.j] = Gone, !.box[e.u] = Append(@, s.var[t][e.j])], t, 0)}
      [] e.op = "take" -> IF s.box[t] = <<>> THEN {Fin(s, t, 0)}
                          ELSE {Fin([s EXCEPT !.box[t] = Tail(@), !.var[t][e.j] = Head(s.box[t])], t, 1)}
Returned(s, t) == [s EXCEPT !.pend[t] = None]
RECURSIVE BoxLen(_, _)
BoxLen(s, t) == IF t = 0 THEN 0 ELSE Len(s.box[t]) + BoxLen(s, t - 1)
LiveCount(s) == Cardinality({<<t, j>> \in Users \X Vars : s.var[t][j].k # -1}) + BoxLen(s, NT)
=============================================================================
