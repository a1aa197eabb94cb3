------------------------------ MODULE MpoolSpec ------------------------------
(* Abstract specification of Free_List and Mpool (C10). Lists 1 and 2 are     *)
(* Free_Lists of one type; every size class of Mpool is a list of its own.    *)
(* A list keeps the memory of destroyed objects as spares and uses them       *)
(* before it asks for new memory. Objects belong to no list: what matters is  *)
(* which list destroys them. Memory blocks of the Free_Lists are those of     *)
(* live objects and of spares.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT NO
Objs == 1..NO
Lists == 1..2
NTy == 6
Class(ty) == CASE ty \in {1, 2, 6} -> 1 [] ty \in {3, 4} -> 2 [] ty = 5 -> 3
Width(ty) == IF ty = 6 THEN 2 ELSE 1        \* type 6 makes an object of its own class in its constructor
Counted(ty) == ty \in {1, 6}                \* objects of these types carry a token
Gone == [on |-> FALSE, ty |-> 0, v |-> 0]
\* el: whether the elements of the Free_Lists carry a token
Fresh(el) == [obj |-> [o \in Objs |-> Gone], on |-> [l \in Lists |-> FALSE], spare |-> [l \in Lists |-> 0], pool |-> [c \in 1..3 |-> 0], el |-> el]
FreeObjs(s) == {o \in Objs : ~s.obj[o].on}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Min(a, b) == IF a < b THEN a ELSE b
Legal(s, e) ==
    CASE e.op = "new" -> TRUE
      [] e.op = "mk" -> s.on[e.l] /\ FreeObjs(s) # {}
      [] e.op = "pmk" -> FreeObjs(s) # {}
      [] e.op = "rm" -> s.on[e.l] /\ s.obj[e.o].on /\ s.obj[e.o].ty = 0
      [] e.op = "prm" -> s.obj[e.o].on /\ s.obj[e.o].ty # 0
      [] e.op = "set" -> s.obj[e.o].on
      [] e.op \in {"clear", "drop"} -> s.on[e.l]
      [] e.op = "movec" -> s.on[e.l] /\ e.l # e.d
      [] e.op = "movea" -> s.on[e.l] /\ s.on[e.d] /\ e.l # e.d
      [] OTHER -> FALSE
After(s, e) ==
    CASE e.op = "new" -> [s EXCEPT !.on[e.l] = TRUE, !.spare[e.l] = 0]
      [] e.op = "mk" -> [s EXCEPT !.obj[Least(FreeObjs(s))] = [on |-> TRUE, ty |-> 0, v |-> e.v], !.spare[e.l] = IF @ > 0 THEN @ - 1 ELSE 0]
      [] e.op = "pmk" -> [s EXCEPT !.obj[Least(FreeObjs(s))] = [on |-> TRUE, ty |-> e.ty, v |-> e.v],
                                   !.pool[Class(e.ty)] = @ - Min(@, Width(e.ty))]
      [] e.op = "rm" -> [s EXCEPT !.obj[e.o] = Gone, !.spare[e.l] = @ + 1]
      [] e.op = "prm" -> [s EXCEPT !.obj[e.o] = Gone, !.pool[Class(s.obj[e.o].ty)] = @ + Width(s.obj[e.o].ty)]
      [] e.op = "set" -> [s EXCEPT !.obj[e.o].v = e.v]
      [] e.op = "clear" -> [s EXCEPT !.spare[e.l] = 0]
      [] e.op = "drop" -> [s EXCEPT !.spare[e.l] = 0, !.on[e.l] = FALSE]
      [] e.op \in {"movec", "movea"} -> [s EXCEPT !.on[e.d] = TRUE, !.spare[e.d] = s.spare[e.l], !.spare[e.l] = 0]
      [] OTHER -> s
\* number of new memory blocks an Mpool object needed
Result(s, e) == IF e.op = "pmk" THEN <<Width(e.ty) - Min(s.pool[Class(e.ty)], Width(e.ty))>> ELSE <<>>
Blocks(s) == Cardinality({o \in Objs : s.obj[o].on /\ s.obj[o].ty = 0}) + s.spare[1] + s.spare[2]
RECURSIVE Tokens(_, _)
Tokens(s, n) == IF n = 0 THEN 0
                ELSE (IF ~s.obj[n].on THEN 0 ELSE IF s.obj[n].ty = 0 THEN s.el ELSE IF Counted(s.obj[n].ty) THEN 1 ELSE 0) + Tokens(s, n - 1)
=============================================================================
