----------------------------- MODULE MpoolCSpec -----------------------------
(* Mpool used by several threads (C10). Every size class has memory blocks.   *)
(* A block is given to an object in one step: one that is not used by any     *)
(* object whose destruction has not begun to return its memory, and a new one *)
(* only when no spare is left. New blocks get their number when the operation *)
(* that needed them returns, so they are counted as new until then.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NV, NB
Threads == 0..NT
Users == 1..NT
Vars == 1..NV
Classes == 1..2
Class(ty) == IF ty = 2 THEN 2 ELSE 1          \* 1: plain, 2: another size, 3: makes a second object of its class
None == [op |-> "none", ph |-> 2, v |-> 0, w |-> 0, todo |-> <<>>]
NoObj == [ty |-> 0, b |-> 0, k |-> 0, v |-> 0]
Begin == [var |-> [t \in Users |-> [j \in Vars |-> NoObj]], box |-> [t \in Users |-> <<>>],
          spare |-> [c \in Classes |-> {}], nb |-> [c \in Classes |-> 0],
          pend |-> [t \in Threads |-> None]]
Idle(s, t) == s.pend[t].op = "none"
Legal(s, e) ==
    /\ Idle(s, e.t)
    /\ CASE e.op = "mk" -> s.var[e.t][e.j].ty = 0
         [] e.op \in {"rm", "get", "set"} -> s.var[e.t][e.j].ty # 0
         [] e.op = "give" -> s.var[e.t][e.j].ty # 0 /\ e.u # e.t
         [] e.op = "take" -> s.var[e.t][e.j].ty = 0
Called(s, e) == [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, v |-> 0, w |-> 0, todo |-> <<>>]]
Fin(s, t, v) == [s EXCEPT !.pend[t].ph = 2, !.pend[t].v = v]
\* one block of class c: -1 stands for a new one
Takes(s, c) == IF s.spare[c] = {} THEN {-1} ELSE s.spare[c]
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE LET e == p.e IN
    CASE e.op = "mk" ->
           LET c == Class(e.ty)
               one(b) == [s EXCEPT !.spare[c] = @ \ {b},
                                   !.pend[t] = IF p.ph = 0 THEN [@ EXCEPT !.v = b, !.ph = IF e.ty = 3 THEN 1 ELSE 2]
                                               ELSE [@ EXCEPT !.w = b, !.ph = 2]]
           IN {one(b) : b \in Takes(s, c)}
      [] e.op = "rm" ->
           LET x == s.var[t][e.j] IN
           IF p.ph = 0 /\ x.ty = 3 THEN {[s EXCEPT !.spare[1] = @ \cup {x.k}, !.var[t][e.j].ty = 1, !.pend[t].ph = 1]}
           ELSE {Fin([s EXCEPT !.spare[Class(x.ty)] = @ \cup {x.b}, !.var[t][e.j] = NoObj], t, 0)}
      [] e.op = "get" -> {Fin(s, t, s.var[t][e.j].v)}
      [] e.op = "set" -> {Fin([s EXCEPT !.var[t][e.j].v = e.v], t, 0)}
      [] e.op = "give" -> {Fin([s EXCEPT !.var[t][e.j] = NoObj, !.box[e.u] = Append(@, s.var[t][e.j])], t, 0)}
      [] e.op = "take" -> IF s.box[t] = <<>> THEN {Fin(s, t, 0)}
                          ELSE {Fin([s EXCEPT !.box[t] = Tail(@), !.var[t][e.j] = Head(s.box[t])], t, 1)}
\* the operation returns v and, for an inner object, w
Num(s, c, b, n) == IF b = -1 THEN s.nb[c] + n ELSE b
CanReturn(s, t, v, w) ==
    LET p == s.pend[t] IN
    IF p.op = "mk" THEN LET c == Class(p.e.ty) IN
                        /\ v = Num(s, c, p.v, 1)
                        /\ w = IF p.e.ty # 3 THEN 0 ELSE Num(s, c, p.w, IF p.v = -1 THEN 2 ELSE 1)
    ELSE v = p.v /\ w = 0
Returned(s, t, v, w) ==
    LET p == s.pend[t] IN
    IF p.op = "mk" THEN LET c == Class(p.e.ty) IN
         [s EXCEPT !.pend[t] = None, !.var[t][p.e.j] = [ty |-> p.e.ty, b |-> v, k |-> w, v |-> p.e.v],
                   !.nb[c] = @ + (IF p.v = -1 THEN 1 ELSE 0) + (IF p.e.ty = 3 /\ p.w = -1 THEN 1 ELSE 0)]
    ELSE [s EXCEPT !.pend[t] = None]
\* blocks of class c in use by objects
Using(s, c) == {<<t, j>> \in Users \X Vars : Class(s.var[t][j].ty) = c /\ s.var[t][j].ty # 0}
RECURSIVE BoxUse(_, _)
BoxUse(q, c) == IF q = <<>> THEN <<>> ELSE (IF Class(Head(q).ty) = c THEN (IF Head(q).ty = 3 THEN <<Head(q).b, Head(q).k>> ELSE <<Head(q).b>>) ELSE <<>>) \o BoxUse(Tail(q), c)
RECURSIVE VarUse(_, _, _)
VarUse(q, c, n) == IF n = 0 THEN <<>> ELSE (IF q[n].ty # 0 /\ Class(q[n].ty) = c THEN (IF q[n].ty = 3 THEN <<q[n].b, q[n].k>> ELSE <<q[n].b>>) ELSE <<>>) \o VarUse(q, c, n - 1)
RECURSIVE AllUse(_, _, _)
AllUse(s, c, t) == IF t = 0 THEN <<>> ELSE VarUse(s.var[t], c, NV) \o BoxUse(s.box[t], c) \o AllUse(s, c, t - 1)
\* no block in use twice
Apart(s) == \A c \in Classes : LET q == AllUse(s, c, NT) IN \A i, k \in 1..Len(q) : i # k => q[i] # q[k]
=============================================================================
