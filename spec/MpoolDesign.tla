----------------------------- MODULE MpoolDesign -----------------------------
(* Implementation-shaped model: every list is a stack of block addresses;    *)
(* objects occupy addresses. Checked exhaustively: no address is in use      *)
(* twice, in use and spare, or in two lists; implements MpoolSpec.           *)
EXTENDS MpoolSpec, GenBase
CONSTANTS Tys, MaxSpare
VARIABLES m, s, lab, ctr
vars == <<m, s, lab, ctr>>
\* m: [free: lists 1, 2 and 2 + class, at: address (sequence) of every object, next: next new address, back: addresses returned]
All == 1..5
MInit == [free |-> [l \in All |-> <<>>], at |-> [o \in Objs |-> <<>>], next |-> 1, back |-> {}]
\* take one block from list l: returns [m, a]
Take(x, l) == IF x.free[l] = <<>> THEN [m |-> [x EXCEPT !.next = @ + 1], a |-> x.next]
              ELSE [m |-> [x EXCEPT !.free[l] = Tail(@)], a |-> Head(x.free[l])]
Give(x, l, a) == [x EXCEPT !.free[l] = <<a>> \o @]
Range(q) == {q[i] : i \in 1..Len(q)}
Return(x, l) == [x EXCEPT !.back = @ \cup Range(x.free[l]), !.free[l] = <<>>]
DStep(x, e) ==
    CASE e.op = "new" -> Return(x, e.l)
      [] e.op = "mk" -> LET t == Take(x, e.l) IN [t.m EXCEPT !.at[Least(FreeObjs(s))] = <<t.a>>]
      [] e.op = "pmk" -> LET l == 2 + Class(e.ty)
                             t == Take(x, l)
                             u == IF Width(e.ty) = 2 THEN Take(t.m, l) ELSE t
                         IN [u.m EXCEPT !.at[Least(FreeObjs(s))] = IF Width(e.ty) = 2 THEN <<t.a, u.a>> ELSE <<t.a>>]
      [] e.op = "rm" -> Give([x EXCEPT !.at[e.o] = <<>>], e.l, x.at[e.o][1])
      [] e.op = "prm" -> LET l == 2 + Class(s.obj[e.o].ty)
                             y == IF Len(x.at[e.o]) = 2 THEN Give(x, l, x.at[e.o][2]) ELSE x
                         IN Give([y EXCEPT !.at[e.o] = <<>>], l, x.at[e.o][1])
      [] e.op \in {"clear", "drop"} -> Return(x, e.l)
      [] e.op \in {"movec", "movea"} -> LET y == Return(x, e.d) IN [y EXCEPT !.free[e.d] = x.free[e.l], !.free[e.l] = <<>>]
      [] OTHER -> x
Ops == [op : {"new", "clear", "drop"}, l : Lists] \cup [op : {"mk"}, l : Lists] \cup [op : {"pmk"}, ty : Tys]
       \cup [op : {"rm"}, l : Lists, o : Objs] \cup [op : {"prm", "set"}, o : Objs] \cup [op : {"movec", "movea"}, l : Lists, d : Lists]
Do(e0) == LET e == IF e0.op \in {"mk", "pmk", "set"} THEN [v |-> ctr % 97] @@ e0 ELSE e0
          IN /\ Legal(s, e) /\ m' = DStep(m, e) /\ s' = After(s, e) /\ lab' = e /\ ctr' = ctr + 1
             /\ \A l \in Lists : s'.spare[l] <= MaxSpare
             /\ \A c \in 1..3 : s'.pool[c] <= MaxSpare
Init == m = MInit /\ s = Fresh(0) /\ lab = [op |-> "init"] /\ ctr = 7
Next == \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_vars
Shape(x) == <<x.on, x.spare, x.pool, [o \in Objs |-> IF x.obj[o].on THEN x.obj[o].ty ELSE -1]>>
View == Shape(s)
Emit == EmitEdge(Shape(s), lab', Shape(s'))
Refines == /\ \A l \in Lists : Len(m.free[l]) = s.spare[l]
           /\ \A c \in 1..3 : Len(m.free[2 + c]) = s.pool[c]
           /\ \A o \in Objs : Len(m.at[o]) = IF ~s.obj[o].on THEN 0 ELSE IF s.obj[o].ty = 0 THEN 1 ELSE Width(s.obj[o].ty)
\* every address is in exactly one place
RECURSIVE CountIn(_, _)
CountIn(q, a) == IF q = <<>> THEN 0 ELSE (IF Head(q) = a THEN 1 ELSE 0) + CountIn(Tail(q), a)
RECURSIVE SumObjs(_, _)
SumObjs(a, n) == IF n = 0 THEN 0 ELSE CountIn(m.at[n], a) + SumObjs(a, n - 1)
RECURSIVE SumLists(_, _)
SumLists(a, n) == IF n = 0 THEN 0 ELSE CountIn(m.free[n], a) + SumLists(a, n - 1)
OnePlace == \A a \in 1..(m.next - 1) : SumObjs(a, NO) + SumLists(a, 5) + (IF a \in m.back THEN 1 ELSE 0) = 1
R(S) == RandomElement({x \in S : ctr >= 0})
Rare == {"drop", "clear", "new", "movec", "movea", "set"}
Nop == UNCHANGED <<m, s>> /\ lab' = [op |-> "nop"] /\ ctr' = ctr + 1
SimNext == LET P == {e \in Ops : Legal(s, e)}
           IN IF P = {} THEN Nop
              ELSE \E k \in {R({e.op : e \in P})} :
                   IF k \in Rare /\ R(1..4) # 1 THEN Nop
                   ELSE \E e \in {R({x \in P : x.op = k})} : Do(e)
=============================================================================
