------------------------------ MODULE RcDesign ------------------------------
(* Implementation-shaped model of Rc and Arc: a counter beside the value,    *)
(* incremented by dup and from_this, decremented by drop, which destroys the *)
(* value (dropping what it refers to) and returns the memory at zero. Moves  *)
(* detach the source, drop the old reference and attach. Checked             *)
(* exhaustively: implements RcSpec; a counter always equals the number of    *)
(* references; nothing is destroyed twice or touched after destruction.      *)
EXTENDS RcSpec, GenBase
VARIABLES m, s, lab, ctr
vars == <<m, s, lab, ctr>>
\* m: [slot, h (objects: [st 0 free 1 alive, v, next, rc]), died, bad]
MInit == [slot |-> [c \in Slots |-> OFF], h |-> [o \in Objs |-> [st |-> 0, v |-> 0, next |-> 0, rc |-> 0]], died |-> <<>>, bad |-> FALSE]
RECURSIVE Drop(_, _)
Drop(x, o) ==
    IF o <= 0 THEN x
    ELSE IF x.h[o].st # 1 \/ x.h[o].rc < 1 THEN [x EXCEPT !.bad = TRUE]
    ELSE LET y == [x EXCEPT !.h[o].rc = @ - 1]
         IN IF y.h[o].rc > 0 THEN y
            ELSE LET z == Drop([y EXCEPT !.died = Append(@, o), !.h[o].next = 0], y.h[o].next)
                 IN [z EXCEPT !.h[o] = [st |-> 0, v |-> 0, next |-> 0, rc |-> 0]]
Incr(x, o) == IF o <= 0 THEN x ELSE IF x.h[o].st # 1 THEN [x EXCEPT !.bad = TRUE] ELSE [x EXCEPT !.h[o].rc = @ + 1]
Store(x, c, o) == LET y == Drop(x, x.slot[c]) IN [y EXCEPT !.slot[c] = o]
MFree(x) == Least({o \in Objs : x.h[o].st = 0})
Make(x, o, v, n) == [x EXCEPT !.h[o] = [st |-> 1, v |-> v, next |-> n, rc |-> 1]]
DStep(x0, e) ==
    LET x == [x0 EXCEPT !.died = <<>>] IN
    CASE e.op \in {"new", "clear"} -> Store(x, e.c, 0)
      [] e.op = "drop" -> Store(x, e.c, OFF)
      [] e.op = "mk" -> Store(Make(x, MFree(x), e.v, 0), e.c, MFree(x))
      [] e.op = "wrap" -> [Make(x, MFree(x), e.v, x.slot[e.c]) EXCEPT !.slot[e.c] = MFree(x)]
      [] e.op = "adv" -> LET o == x.slot[e.c]
                             n == x.h[o].next
                         IN Store([x EXCEPT !.h[o].next = 0], e.c, n)
      [] e.op = "peek" -> LET n == x.h[x.slot[e.c]].next IN Store(Incr(x, n), e.c, n)
      [] e.op = "cut" -> LET o == x.slot[e.c] IN Drop([x EXCEPT !.h[o].next = 0], x.h[o].next)
      [] e.op = "set" -> [x EXCEPT !.h[x.slot[e.c]].v = e.v]
      [] e.op \in {"dup", "from"} -> LET o == x.slot[e.c] IN Store(Incr(x, o), e.d, o)
      [] e.op \in {"movec", "movea"} -> LET o == x.slot[e.c] IN Store([x EXCEPT !.slot[e.c] = 0], e.d, o)
      [] e.op = "link" -> LET o == x.slot[e.c]
                              n == x.slot[e.d]
                              y == Incr(x, n)
                          IN Drop([y EXCEPT !.h[o].next = n], x.h[o].next)
      [] OTHER -> x
Abs(x) == [slot |-> x.slot, obj |-> [o \in Objs |-> IF x.h[o].st = 1 THEN [alive |-> TRUE, v |-> x.h[o].v, next |-> x.h[o].next] ELSE Dead]]
Ops == [op : {"new", "adv", "peek", "cut", "clear", "drop", "refs", "ok"} \cup Reading, c : Slots]
VOps == [op : {"mk", "wrap", "set"}, c : Slots]
TwoOps == [op : {"dup", "movec", "movea", "from", "link"}, c : Slots, d : Slots]
Do(e0) == LET e == IF e0.op \in {"mk", "wrap", "set"} THEN [v |-> ctr] @@ e0 ELSE e0
          IN /\ Legal(s, e)
             /\ m' = DStep(m, e) /\ s' = After(s, e) /\ lab' = e /\ ctr' = ctr + 1
Bad(e) == /\ e.op \in Reading /\ s.slot[e.c] = 0 /\ lab' = [bad |-> 1] @@ e /\ UNCHANGED <<m, s>> /\ ctr' = ctr + 1
Init == m = MInit /\ s = Fresh /\ lab = [op |-> "init"] /\ ctr = 100
Next == \E e \in Ops \cup VOps \cup TwoOps : Do(e)
NextBad == Next \/ \E e \in Ops : Bad(e)
Spec == Init /\ [][Next]_vars
Shape(x) == <<x.slot, [o \in Objs |-> <<x.obj[o].alive, x.obj[o].next>>]>>
View == Shape(s)
Emit == EmitEdge(Shape(s), lab', Shape(s'))
Refines == Abs(m) = s
Counts == ~m.bad /\ \A o \in Objs : m.h[o].rc = (IF s.obj[o].alive THEN Refs(s, o) ELSE 0)
DiedAgrees == [][Refines' /\ Counts' /\ (lab'.op \in {"refs", "ok"} \cup Reading \/ m'.died = Died(s, lab'))]_vars
R(S) == RandomElement({x \in S : ctr >= 0})
Pref(e) == e.op \notin {"drop", "clear", "new"} \/ R(1..3) = 1
SimNext == LET P == {e \in {q \in Ops \cup VOps \cup TwoOps : ctr >= 0} : Legal(s, e) /\ Pref(e)}
           IN IF P = {} THEN UNCHANGED <<m, s, lab>> /\ ctr' = ctr + 1 ELSE Do(RandomElement(P))
=============================================================================
