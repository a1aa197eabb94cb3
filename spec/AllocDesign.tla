---------------------------- MODULE AllocDesign ----------------------------
(* Implementation-shaped model: a map from names to statistics with the set   *)
(* of current addresses, looked up when memory is freed; addresses are reused *)
(* (most recent first). Checked to implement AllocSpec.                       *)
EXTENDS AllocSpec, GenBase
CONSTANTS Sizes, MaxAl, Kinds
VARIABLES m, s, lab, ctr
vars == <<m, s, lab, ctr>>
\* m: [set: per name the pairs <<address, size>>, num: per name numbers, net: counter, at: address of each object, spare: addresses, next]
MInit == [set |-> [k \in Names |-> {}], num |-> [k \in Names |-> NoStat], net |-> 0, at |-> [o \in Objs |-> 0], spare |-> <<>>, next |-> 1]
SysAlloc(x) == IF x.spare = <<>> THEN [m |-> [x EXCEPT !.next = @ + 1, !.net = @ + 1], a |-> x.next]
               ELSE [m |-> [x EXCEPT !.spare = Tail(@), !.net = @ + 1], a |-> Head(x.spare)]
SysFree(x, a) == [x EXCEPT !.spare = <<a>> \o @, !.net = @ - 1]
Noted(x, k, a, n) == IF k = 0 THEN x ELSE [x EXCEPT !.set[k] = @ \cup {<<a, n>>}, !.num[k] = Took(@, n)]
Dropped(x, k, a) == IF k = 0 THEN x ELSE LET p == CHOOSE q \in x.set[k] : q[1] = a
                                         IN [x EXCEPT !.set[k] = @ \ {p}, !.num[k] = Gave(@, p[2])]
DStep(x, e) ==
    CASE e.op = "al" -> LET t == SysAlloc(x) IN Noted([t.m EXCEPT !.at[Least(FreeObjs(s))] = t.a], e.k, t.a, e.n)
      [] e.op = "fr" -> LET a == x.at[e.o] IN SysFree(Dropped([x EXCEPT !.at[e.o] = 0], s.obj[e.o].k, a), a)
      [] e.op = "log" /\ s.busy # 0 -> LET t == SysAlloc(x) IN SysFree(Dropped(Noted(t.m, s.busy, t.a, BusySize), s.busy, t.a), t.a)
      [] OTHER -> x
Ops == [op : {"al"}, k : 0..NK, n : Sizes] \cup [op : {"fr"}, o : Objs] \cup [op : {"az", "fz"}, k : 0..NK]
       \cup [op : {"fin"}, o : 0..NO] \cup [op : {"rb", "re", "fb", "fe", "unsub", "log"}]
       \cup [op : {"ra"}, n : Sizes] \cup [op : {"sub"}, k : 0..NK]
Do(e) == /\ e.op \in Kinds /\ Legal(s, e) /\ m' = DStep(m, e) /\ s' = After(s, e) /\ lab' = e /\ ctr' = ctr + 1
         /\ \A k \in Names : s'.st[k].al <= MaxAl
         /\ Len(s'.fins) <= MaxAl
         /\ Sum(s'.reg) <= (IF MaxAl < 10 THEN 6 ELSE 100000) /\ (MaxAl < 10 => Len(s'.reg) <= 2)
Init == m = MInit /\ s = Fresh /\ lab = [op |-> "init"] /\ ctr = 7
Next == \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_vars
View == <<m, s>>
Shape(x) == <<[o \in Objs |-> <<x.obj[o].on, x.obj[o].k, x.obj[o].n>>],
              [k \in Names |-> <<x.st[k].al, x.st[k].fr, x.st[k].as, x.st[k].fs, x.st[k].hi>>],
              x.reg, x.frame, x.sub, x.busy, x.fins>>
Emit == EmitEdge(Shape(s), lab', Shape(s'))
Refines == /\ m.num = s.st
           /\ m.net = Cardinality(Live(s))
           /\ \A k \in Names : /\ Cardinality(m.set[k]) = s.st[k].al - s.st[k].fr
                               /\ \A o \in Live(s) : s.obj[o].k = k => <<m.at[o], s.obj[o].n>> \in m.set[k]
\* the numbers add up
Balanced == \A k \in Names : LET x == s.st[k] IN x.cur = x.as - x.fs /\ x.hi >= x.cur /\ x.cur >= 0 /\ x.hi <= x.as
R(S) == RandomElement({x \in S : ctr >= 0})
Rare == {"sub", "unsub", "fin", "fb", "fe", "rb", "re", "az", "fz"}
Nop == UNCHANGED <<m, s>> /\ lab' = [op |-> "nop"] /\ ctr' = ctr + 1
SimNext == LET P == {e \in Ops : e.op \in Kinds /\ Legal(s, e)}
           IN \E k \in {R({e.op : e \in P})} :
                   IF (k \in Rare \/ (k = "fr" /\ 8 * Cardinality(FreeObjs(s)) > NO)) /\ R(1..3) # 1 THEN Nop
                   ELSE \E e \in {R({x \in P : x.op = k})} :
                        IF k = "sub" /\ e.k = 0 THEN Nop ELSE Do(e)
=============================================================================
