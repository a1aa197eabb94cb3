------------------------------- MODULE ArcSpec ------------------------------
(* Arc used by several threads (C07). Every thread has variables of its own;  *)
(* references are handed over through mailboxes. The counter of an object is  *)
(* incremented and decremented in single steps. The operation that takes it   *)
(* to zero destroys the object before it returns, then drops the reference    *)
(* the object held. No other operation destroys anything.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NV, NO
Threads == 0..NT
Users == 1..NT
Vars == 1..NV
Objs == 1..NO
None == [op |-> "none", ph |-> 2, v |-> 0, todo |-> 0, die |-> 0]
NoObj == [st |-> 0, rc |-> 0, v |-> 0, next |-> 0]
\* initially k objects, object i referring to i + 1 when chained, spread over the variables
First(k, step, t, j) == IF k = 0 THEN 0
                        ELSE IF step = 9 THEN (IF j = 1 THEN 1 ELSE 0)   \* everybody holds the first object, once
                        ELSE (t * step + j) % (k + 1)
InitRefs(k, step, chain, o) == Cardinality({<<t, j>> \in Users \X Vars : First(k, step, t, j) = o}) + (IF chain = 1 /\ o > 1 /\ o <= k THEN 1 ELSE 0)
\* references the chain holds once the starting references are gone are dropped with it: an object that nothing refers to is not made
Begin(k, step, chain) ==
    [var |-> [t \in Users |-> [j \in Vars |-> First(k, step, t, j)]],
     box |-> [t \in Users |-> <<>>],
     obj |-> [o \in Objs |-> IF o <= k /\ (\E t \in Users : \E j \in Vars : First(k, step, t, j) \in (IF chain = 1 THEN 1..o ELSE {o}) \ {0})
                             THEN [st |-> 1, v |-> o * 10, next |-> IF chain = 1 /\ o < k THEN o + 1 ELSE 0,
                                   rc |-> Cardinality({<<t, j>> \in Users \X Vars : First(k, step, t, j) = o})
                                          + (IF chain = 1 /\ o > 1 /\ (\E t \in Users : \E j \in Vars : First(k, step, t, j) \in 1..(o - 1)) THEN 1 ELSE 0)]
                             ELSE NoObj],
     pend |-> [t \in Threads |-> None]]
Idle(s, t) == s.pend[t].op = "none"
Var(s, e) == s.var[e.t][e.j]
Legal(s, e) ==
    /\ Idle(s, e.t)
    /\ CASE e.op = "mk" -> e.i # e.j /\ s.obj[e.k].st = 0 /\ s.obj[e.k].v = 0
         [] e.op \in {"dup", "mv", "clr", "refs"} -> TRUE
         [] e.op \in {"from", "get", "cow", "next"} -> Var(s, e) # 0
         [] e.op = "give" -> e.u # e.t
         [] e.op = "take" -> TRUE
Called(s, e) == [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, v |-> 0, todo |-> 0, die |-> 0]]
\* store o (already counted) in variable j of t; the old reference is still to be dropped
Put(s, t, j, o) == [s EXCEPT !.pend[t].todo = s.var[t][j], !.pend[t].ph = 1, !.var[t][j] = o]
Count(s, o) == IF o = 0 THEN s ELSE [s EXCEPT !.obj[o].rc = @ + 1]
Fin(s, t, v) == [s EXCEPT !.pend[t].ph = 2, !.pend[t].v = v]
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE IF p.ph = 1 THEN
        IF p.die # 0 THEN {}
        ELSE IF p.todo = 0 THEN {[s EXCEPT !.pend[t].ph = 2]}
        ELSE LET z == [s EXCEPT !.obj[p.todo].rc = @ - 1, !.pend[t].todo = 0]
             IN {IF z.obj[p.todo].rc = 0 THEN [z EXCEPT !.pend[t].die = p.todo] ELSE z}
    ELSE LET e == p.e IN
    CASE e.op = "mk" -> LET n == IF e.i = 0 THEN 0 ELSE s.var[t][e.i]
                            z == IF e.i = 0 THEN s ELSE [s EXCEPT !.var[t][e.i] = 0]
                        IN {Put([z EXCEPT !.obj[e.k] = [st |-> 1, rc |-> 1, v |-> e.k * 10, next |-> n]], t, e.j, e.k)}
      [] e.op \in {"dup", "from"} -> {Put(Count(s, s.var[t][e.j]), t, e.i, s.var[t][e.j])}
      [] e.op = "next" -> LET n == s.obj[s.var[t][e.j]].next IN {Put(Count(s, n), t, e.i, n)}
      [] e.op = "mv" -> IF e.i = e.j THEN {Fin(s, t, 0)} ELSE {Put([s EXCEPT !.var[t][e.j] = 0], t, e.i, s.var[t][e.j])}
      [] e.op = "clr" -> {Put(s, t, e.j, 0)}
      [] e.op = "refs" -> {Fin(s, t, IF s.var[t][e.j] = 0 THEN 0 ELSE s.obj[s.var[t][e.j]].rc)}
      [] e.op = "get" -> {Fin(s, t, s.obj[s.var[t][e.j]].v)}
      [] e.op = "cow" -> LET o == s.var[t][e.j]
                         IN {IF s.obj[o].rc = 1 THEN Fin([s EXCEPT !.obj[o].v = @ + 1], t, 1) ELSE Fin(s, t, 0)}
      [] e.op = "give" -> {Fin([s EXCEPT !.var[t][e.j] = 0, !.box[e.u] = Append(@, s.var[t][e.j])], t, 0)}
      [] e.op = "take" -> IF s.box[t] = <<>> THEN {Fin(s, t, 0)}
                          ELSE {Put([s EXCEPT !.box[t] = Tail(@), !.pend[t].v = 1], t, e.j, Head(s.box[t]))}
Returned(s, t) == [s EXCEPT !.pend[t] = None]
\* the destructor of object o runs in thread t and sees value v
CanDie(s, t, o) == s.pend[t].op # "none" /\ s.pend[t].die = o /\ s.obj[o].st = 1
Die(s, t, o) == [s EXCEPT !.obj[o].st = 2, !.pend[t].die = 0, !.pend[t].todo = s.obj[o].next]
\* what the counters must be
RECURSIVE InBox(_, _)
InBox(b, o) == IF b = <<>> THEN 0 ELSE (IF Head(b) = o THEN 1 ELSE 0) + InBox(Tail(b), o)
RECURSIVE Boxed(_, _, _)
Boxed(s, o, t) == IF t = 0 THEN 0 ELSE InBox(s.box[t], o) + Boxed(s, o, t - 1)
Truth(s, o) == Cardinality({<<t, j>> \in Users \X Vars : s.var[t][j] = o}) + Boxed(s, o, NT)
               + Cardinality({p \in Objs : s.obj[p].st = 1 /\ s.obj[p].next = o})
               + Cardinality({t \in Threads : s.pend[t].todo = o})
=============================================================================
