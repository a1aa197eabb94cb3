----------------------------- MODULE OwnDesign -----------------------------
(* Implementation-shaped model of the owning wrappers: contents are objects  *)
(* with an identity, a life and an owner; construction, relocation, cloning  *)
(* and destruction act on objects one at a time. Moves are modelled in the   *)
(* order the code performs them (detach the source, destroy the old content, *)
(* attach), so that a source reachable from the destination is covered.      *)
(* Checked exhaustively: implements OwnSpec, no object is ever destroyed     *)
(* twice, reached after destruction, owned twice or lost.                    *)
EXTENDS OwnSpec, GenBase, FiniteSets
CONSTANTS TY, NC, MaxLen, Ks
VARIABLES obj, m, s, lab, ctr
vars == <<obj, m, s, lab, ctr>>
Slots == 1..NC
\* obj: sequence of [k, v, next, alive]; m: slots [on, mv, o] with o a sequence of roots (components)
MOff == [on |-> FALSE, mv |-> FALSE, o |-> <<>>]
MOn(o) == [on |-> TRUE, mv |-> FALSE, o |-> o]
Nil == 0

RECURSIVE Chain(_, _)
Chain(O, i) == IF i = Nil THEN <<>> ELSE <<[k |-> O[i].k, v |-> O[i].v]>> \o Chain(O, O[i].next)
RECURSIVE Cat(_, _)
Cat(O, r) == IF r = <<>> THEN <<>> ELSE Chain(O, Head(r)) \o Cat(O, Tail(r))
AbsSlot(O, x) == [on |-> x.on, mv |-> x.mv, c |-> Cat(O, x.o)]
Abs(O, t) == [i \in Slots |-> AbsSlot(O, t[i])]

RECURSIVE Kill(_, _)
\* destroys the object and, through its destructor, the chain it owns
Kill(O, i) == IF i = Nil THEN O
              ELSE Kill([O EXCEPT ![i].alive = IF @ = 1 THEN 0 ELSE -1, ![i].next = Nil], O[i].next)
RECURSIVE KillAll(_, _)
KillAll(O, r) == IF r = <<>> THEN O ELSE KillAll(Kill(O, Head(r)), Tail(r))
New(O, k, v, n) == Append(O, [k |-> k, v |-> v, next |-> n, alive |-> 1])
RECURSIVE NewAll(_, _, _, _)
NewAll(O, k, v, n) == IF n = 0 THEN O ELSE NewAll(New(O, k, v, Nil), k, v + 1, n - 1)
Ids(O, n) == [i \in 1..n |-> Len(O) + i]
RECURSIVE Copy(_, _)
\* deep copy of a chain: the copy of the tail first, then the node owning it; returns [O, i]
Copy(O, i) == IF i = Nil THEN [O |-> O, i |-> Nil]
              ELSE LET t == Copy(O, O[i].next)
                   IN [O |-> New(t.O, O[i].k, O[i].v, t.i), i |-> Len(t.O) + 1]
RECURSIVE CopyAll(_, _)
CopyAll(O, r) == IF r = <<>> THEN [O |-> O, o |-> <<>>]
                 ELSE LET h == Copy(O, Head(r))
                          t == CopyAll(h.O, Tail(r))
                      IN [O |-> t.O, o |-> <<h.i>> \o t.o]
MGone == IF TY = BOX THEN MOn(<<>>) ELSE [on |-> TRUE, mv |-> TRUE, o |-> <<>>]
Roots(r) == SelectSeq(r, LAMBDA i : i # Nil)

\* returns [O, t]
DStep(O, t, e) ==
    LET x == t[e.c] IN
    CASE e.op = "new" -> [O |-> KillAll(O, x.o), t |-> [t EXCEPT ![e.c] = MOn(<<>>)]]
      [] e.op \in {"mk", "emplace"} ->
            LET O1 == KillAll(O, x.o)
            IN [O |-> NewAll(O1, e.k, e.v, Width(TY)), t |-> [t EXCEPT ![e.c] = MOn(Ids(O1, Width(TY)))]]
      [] e.op = "assign" ->
            LET O1 == NewAll(O, e.k, e.v, Width(TY))
            IN [O |-> KillAll(O1, x.o), t |-> [t EXCEPT ![e.c] = MOn(Ids(O, Width(TY)))]]
      [] e.op = "clear" -> [O |-> KillAll(O, x.o), t |-> [t EXCEPT ![e.c] = MOn(<<>>)]]
      [] e.op = "wrap" ->
            LET n == IF x.o = <<>> THEN Nil ELSE x.o[1]
            IN [O |-> New(O, LinkAlt(TY), e.v, n), t |-> [t EXCEPT ![e.c] = MOn(<<Len(O) + 1>>)]]
      [] e.op \in {"adv", "advv"} ->
            LET src == O[x.o[1]].next
                O1 == [O EXCEPT ![x.o[1]].next = Nil]     \* detach the source
                O2 == Kill(O1, x.o[1])                     \* destroy the old content
            IN [O |-> O2, t |-> [t EXCEPT ![e.c] = MOn(Roots(<<src>>))]]
      [] e.op \in {"clone", "clonea"} ->
            LET c == CopyAll(O, x.o)
            IN [O |-> KillAll(c.O, t[e.d].o), t |-> [t EXCEPT ![e.d] = MOn(c.o)]]
      [] e.op \in {"movec", "movea"} ->
            IF e.c = e.d THEN [O |-> O, t |-> t]
            ELSE [O |-> KillAll(O, t[e.d].o), t |-> [t EXCEPT ![e.d] = MOn(x.o), ![e.c] = MGone]]
      [] e.op = "set" -> [O |-> [O EXCEPT ![x.o[e.i + 1]].v = e.v], t |-> t]
      [] e.op = "take" -> [O |-> KillAll(O, x.o), t |-> [t EXCEPT ![e.c] = MGone]]
      [] e.op = "drop" -> [O |-> KillAll(O, x.o), t |-> [t EXCEPT ![e.c] = MOff]]
      [] OTHER -> [O |-> O, t |-> t]

Ops == [op : {"new", "clear", "adv", "advv", "get", "getc", "arrow", "invoke", "valor", "ok", "drop", "take"}, c : Slots]
MkOps == [op : {"mk", "emplace", "assign"}, c : Slots, k : Ks] \cup [op : {"wrap"}, c : Slots]
         \cup [op : {"set"}, c : Slots, i : 0..2]
TwoOps == [op : {"clone", "clonea", "movec", "movea"}, c : Slots, d : Slots]
\* reads that must be refused
Misuse(e) == \/ e.op \in Reading /\ s[e.c].on /\ (s[e.c].mv => TY = FN)
                /\ TY \in {BOX, OPT, FN} /\ ~Legal(TY, s, e)
Fits(e) == e.op = "wrap" => Len(s[e.c].c) < MaxLen
Exists(e) == /\ e.op = "arrow" => TY \in {BOX, OPT}
             /\ e.op = "getc" => TY # FN
             /\ e.op = "invoke" => TY \in {FN, TUPLE}
             /\ e.op \in {"get", "getc"} => TY # FN
             /\ e.op = "take" => TY \in Variants

Do(e0) ==
    LET hasv == e0.op \in {"mk", "emplace", "assign", "wrap", "set"}
        e == (IF hasv THEN [v |-> ctr] ELSE <<>>) @@ (IF e0.op = "invoke" THEN [a |-> ctr % 50] ELSE <<>>) @@ e0
        r == DStep(obj, m, e)
    IN /\ Exists(e) /\ Legal(TY, s, e) /\ Fits(e)
       /\ obj' = r.O /\ m' = r.t /\ s' = After(TY, s, e) /\ lab' = e /\ ctr' = ctr + 3
Bad(e) == /\ Exists(e) /\ Misuse(e)
          /\ lab' = IF e.op = "invoke" THEN [a |-> 1] @@ e ELSE e
          /\ UNCHANGED <<obj, m, s>> /\ ctr' = ctr + 3
Init == obj = <<>> /\ m = [i \in Slots |-> MOff] /\ s = [i \in Slots |-> Off] /\ lab = [op |-> "init"] /\ ctr = 100
Next == \E e \in Ops \cup MkOps \cup TwoOps : Do(e)
NextBad == Next \/ \E e \in Ops : Bad(e)
Spec == Init /\ [][Next]_vars

Shape == [i \in Slots |-> [on |-> s[i].on, mv |-> s[i].mv, k |-> [j \in 1..Len(s[i].c) |-> s[i].c[j].k]]]
ShapeP == [i \in Slots |-> [on |-> s'[i].on, mv |-> s'[i].mv, k |-> [j \in 1..Len(s'[i].c) |-> s'[i].c[j].k]]]
View == Shape
Emit == EmitEdge(Shape, lab', ShapeP)

Refines == Abs(obj, m) = s
RECURSIVE Reach(_, _)
Reach(O, i) == IF i = Nil THEN {} ELSE {i} \cup Reach(O, O[i].next)
Owned == UNION {UNION {Reach(obj, m[i].o[j]) : j \in 1..Len(m[i].o)} : i \in Slots}
RECURSIVE Sum(_)
Sum(n) == IF n = 0 THEN 0 ELSE Len(s[n].c) + Sum(n - 1)
ExactlyOnce == /\ \A i \in 1..Len(obj) : obj[i].alive = IF i \in Owned THEN 1 ELSE 0
               /\ Cardinality(Owned) = Sum(NC)

RefinesAlways == [][Refines' /\ ExactlyOnce']_vars

SimNext == LET P == {e \in {q \in Ops \cup MkOps \cup TwoOps : ctr >= 0} : Exists(e) /\ Legal(TY, s, e) /\ Fits(e)}
           IN Do(RandomElement(P))
=============================================================================
