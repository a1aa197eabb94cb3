----------------------------- MODULE HeapDesign -----------------------------
(* Implementation-shaped model of rpp::Heap: an implicit binary tree in an   *)
(* array, sift-up on push, last-to-root and sift-down on pop. Checked to     *)
(* implement HeapSpec: contents preserved, root always minimal.              *)
EXTENDS HeapSpec, GenBase
CONSTANTS NC, MaxLen, MaxCap, Sizes, Keys
VARIABLES m, s, lab, ctr
vars == <<m, s, lab, ctr>>
Slots == 1..NC
MOff == [on |-> FALSE, a |-> <<>>, cap |-> 0]
MNew(n) == [on |-> TRUE, a |-> <<>>, cap |-> n]
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
Less(x, y) == Key(x) < Key(y)
RECURSIVE Up(_, _)
Up(a, i) == IF i = 1 THEN a
            ELSE LET p == i \div 2 IN IF Less(a[i], a[p]) THEN Up(Swap(a, i, p), p) ELSE a
RECURSIVE Down(_, _)
Down(a, i) ==
    LET lft == 2 * i
        r == lft + 1 IN
    IF r <= Len(a)
    THEN IF Less(a[lft], a[i]) /\ ~Less(a[r], a[lft]) THEN Down(Swap(a, i, lft), lft)
         ELSE IF Less(a[r], a[i]) /\ ~Less(a[lft], a[r]) THEN Down(Swap(a, i, r), r) ELSE a
    ELSE IF lft <= Len(a) /\ Less(a[lft], a[i]) THEN Swap(a, i, lft) ELSE a
Grow(n) == IF n = 0 THEN 8 ELSE 2 * n
MPush(x, v) == [x EXCEPT !.a = Up(Append(x.a, v), Len(x.a) + 1),
                         !.cap = IF Len(x.a) = x.cap THEN Grow(x.cap) ELSE x.cap]
MPop(x) == LET n == Len(x.a) IN
           [x EXCEPT !.a = IF n = 1 THEN <<>> ELSE Down(<<x.a[n]>> \o SubSeq(x.a, 2, n - 1), 1)]
MaxI(i, j) == IF i > j THEN i ELSE j
DStep(t, e) ==
    LET x == t[e.c] IN
    CASE e.op = "new" -> [t EXCEPT ![e.c] = MNew(0)]
      [] e.op = "newcap" -> [t EXCEPT ![e.c] = MNew(e.n)]
      [] e.op = "init3" -> [t EXCEPT ![e.c] = MPush(MPush(MPush(MNew(3), e.v + 1001), e.v), e.v + 2)]
      [] e.op \in {"push", "emplace"} -> [t EXCEPT ![e.c] = MPush(x, e.v)]
      [] e.op = "pop" -> [t EXCEPT ![e.c] = MPop(x)]
      [] e.op = "clear" -> [t EXCEPT ![e.c].a = <<>>]
      [] e.op = "reserve" -> [t EXCEPT ![e.c].cap = MaxI(x.cap, e.n)]
      [] e.op = "grow" -> [t EXCEPT ![e.c].cap = Grow(x.cap)]
      [] e.op = "drop" -> [t EXCEPT ![e.c] = MOff]
      [] e.op \in {"clone", "clonea"} -> [t EXCEPT ![e.d] = x]
      [] e.op \in {"movec", "movea"} ->
            IF e.c = e.d THEN t ELSE [t EXCEPT ![e.d] = x, ![e.c] = MNew(0)]
      [] OTHER -> t
O1(op) == {[op |-> op, c |-> c] : c \in Slots}
ON(op) == {[op |-> op, c |-> c, n |-> n] : c \in Slots, n \in Sizes}
OK(op) == {[op |-> op, c |-> c, k |-> k] : c \in Slots, k \in Keys}
OD(op) == {[op |-> op, c |-> c, d |-> d] : c \in Slots, d \in Slots}
AllOps == O1("new") \cup ON("newcap") \cup OK("init3") \cup OK("push") \cup OK("emplace") \cup O1("pop")
    \cup O1("clear") \cup ON("reserve") \cup O1("grow") \cup O1("top") \cup O1("probe") \cup O1("drop")
    \cup OD("clone") \cup OD("clonea") \cup OD("movec") \cup OD("movea")
Arg(o, v) == IF o.op \in {"push", "emplace", "init3"} THEN o @@ [v |-> o.k * 1000 + v] ELSE o
SetOf(q) == {q[i] : i \in 1..Len(q)}
Abs(t) == [i \in Slots |-> [on |-> t[i].on, b |-> SetOf(t[i].a), top |-> IF t[i].a = <<>> THEN -1 ELSE t[i].a[1]]]
Init == m = [i \in Slots |-> MOff] /\ s = [i \in Slots |-> Off] /\ lab = [op |-> "init"] /\ ctr = 0
Fits(o) == Legal(s, o) /\ LET t == DStep(m, Arg(o, ctr)) IN
           \A i \in Slots : Len(t[i].a) <= MaxLen /\ t[i].cap <= MaxCap
Do(o) == LET e == Arg(o, ctr)
             t == DStep(m, e)
             P == Present(s, e)
             B == Bags(s, e)
         IN /\ m' = t /\ lab' = o /\ ctr' = (ctr + 3) % 900
            /\ s' = [i \in Slots |-> [on |-> P[i], b |-> B[i], top |-> Abs(t)[i].top]]
Next == \E o \in AllOps : Fits(o) /\ Do(o)
Spec == Init /\ [][Next]_vars
Kinds == {o.op : o \in AllOps}
ByKind == [k \in Kinds |-> {o \in AllOps : o.op = k}]
Nop == lab' = [op |-> "nop"] /\ UNCHANGED <<m, s>> /\ ctr' = (ctr + 1) % 900
\* pushes and pops dominate, so that heaps get large
SimNext == \E k \in {RandomElement({q \in Kinds \cup {"+1", "+2", "+3", "+4", "+5", "-1", "-2", "-3", "-4"} : ctr >= 0})} :
              LET kk == IF k \in {"+1", "+2", "+3", "+4", "+5"} THEN "push" ELSE IF k \in {"-1", "-2", "-3", "-4"} THEN "pop" ELSE k
                  ok == {x \in ByKind[kk] : Fits(x)} IN
              IF ok = {} THEN Nop ELSE \E o \in {RandomElement(ok)} : Do(o)
Shape(t) == [i \in Slots |-> [on |-> t[i].on, cap |-> t[i].cap, a |-> [j \in 1..Len(t[i].a) |-> Key(t[i].a[j])]]]
View == Shape(m)
Emit == EmitEdge(Shape(m), lab', Shape(m'))
Refines == \A i \in Slots : /\ Abs(m)[i] = s[i]
                            /\ Len(m[i].a) = Cardinality(s[i].b)
                            /\ s[i].b # {} => Minimal(s[i].b, s[i].top)
HeapOrder == \A i \in Slots : \A j \in 2..Len(m[i].a) : ~Less(m[i].a[j], m[i].a[j \div 2])
RefinesAlways == [][Refines' /\ HeapOrder']_vars
=============================================================================
