------------------------------- MODULE RcSpec -------------------------------
(* Abstract specification of Rc and Arc (C07). Slots hold references to      *)
(* objects; an object holds a value and may refer to one further object.     *)
(* An object is alive exactly while some reference to it exists; objects     *)
(* die at the moment the last one goes, and take their own reference with    *)
(* them. A new object takes the least free name.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NC, NO
Slots == 1..NC
Objs == 1..NO
OFF == -1
Dead == [alive |-> FALSE, v |-> 0, next |-> 0]
Fresh == [slot |-> [c \in Slots |-> OFF], obj |-> [o \in Objs |-> Dead]]
Refs(s, o) == Cardinality({c \in Slots : s.slot[c] = o}) + Cardinality({p \in Objs : s.obj[p].alive /\ s.obj[p].next = o})
AliveSet(s) == {o \in Objs : s.obj[o].alive}
FreeObjs(s) == Objs \ AliveSet(s)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Reach(_, _)
Reach(s, o) == IF o <= 0 THEN {} ELSE {o} \cup Reach(s, s.obj[o].next)
On(s, c) == s.slot[c] # OFF
Full(s, c) == s.slot[c] > 0

Reading == {"get", "getc", "arrow"}
Legal(s, e) ==
    CASE e.op = "new" -> TRUE
      [] e.op = "mk" -> FreeObjs(s) # {}
      [] e.op = "wrap" -> On(s, e.c) /\ FreeObjs(s) # {}
      [] e.op \in {"adv", "peek", "cut", "set"} -> Full(s, e.c)
      [] e.op = "dup" -> On(s, e.c)
      [] e.op = "movec" -> On(s, e.c) /\ e.c # e.d
      [] e.op = "movea" -> On(s, e.c) /\ On(s, e.d)
      [] e.op = "from" -> Full(s, e.c)
      [] e.op = "link" -> Full(s, e.c) /\ On(s, e.d) /\ s.slot[e.c] \notin Reach(s, s.slot[e.d])
      [] e.op \in {"clear", "refs", "ok", "drop"} -> On(s, e.c)
      [] e.op \in Reading -> Full(s, e.c)
      [] OTHER -> FALSE

\* objects that die, in order, when nothing refers to them any more
RECURSIVE Collect(_, _)
Collect(s, died) ==
    LET Z == {o \in AliveSet(s) : Refs(s, o) = 0}
    IN IF Z = {} THEN [s |-> s, died |-> died]
       ELSE LET o == Least(Z) IN Collect([s EXCEPT !.obj[o] = Dead], Append(died, o))
Raw(s, e) ==
    CASE e.op = "new" -> [s EXCEPT !.slot[e.c] = 0]
      [] e.op = "mk" -> LET o == Least(FreeObjs(s)) IN [s EXCEPT !.slot[e.c] = o, !.obj[o] = [alive |-> TRUE, v |-> e.v, next |-> 0]]
      [] e.op = "wrap" -> LET o == Least(FreeObjs(s))
                          IN [s EXCEPT !.slot[e.c] = o, !.obj[o] = [alive |-> TRUE, v |-> e.v, next |-> s.slot[e.c]]]
      [] e.op = "adv" -> [s EXCEPT !.slot[e.c] = s.obj[s.slot[e.c]].next, !.obj[s.slot[e.c]].next = 0]
      [] e.op = "peek" -> [s EXCEPT !.slot[e.c] = s.obj[s.slot[e.c]].next]
      [] e.op = "cut" -> [s EXCEPT !.obj[s.slot[e.c]].next = 0]
      [] e.op = "set" -> [s EXCEPT !.obj[s.slot[e.c]].v = e.v]
      [] e.op \in {"dup", "from"} -> [s EXCEPT !.slot[e.d] = s.slot[e.c]]
      [] e.op \in {"movec", "movea"} -> IF e.c = e.d THEN s ELSE [s EXCEPT !.slot[e.d] = s.slot[e.c], !.slot[e.c] = 0]
      [] e.op = "link" -> [s EXCEPT !.obj[s.slot[e.c]].next = s.slot[e.d]]
      [] e.op = "clear" -> [s EXCEPT !.slot[e.c] = 0]
      [] e.op = "drop" -> [s EXCEPT !.slot[e.c] = OFF]
      [] OTHER -> s
After(s, e) == Collect(Raw(s, e), <<>>).s
Died(s, e) == Collect(Raw(s, e), <<>>).died
Result(s, e) ==
    CASE e.op \in Reading -> <<s.obj[s.slot[e.c]].v>>
      [] e.op = "refs" -> <<IF Full(s, e.c) THEN Refs(s, s.slot[e.c]) ELSE 0>>
      [] e.op = "ok" -> <<IF Full(s, e.c) THEN 1 ELSE 0>>
      [] OTHER -> <<>>
=============================================================================
