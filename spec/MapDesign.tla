----------------------------- MODULE MapDesign -----------------------------
(* Implementation-shaped model of rpp::Map: an open-addressing table with    *)
(* Robin Hood displacement, lookups that stop early at a richer slot, and    *)
(* backward-shift deletion. Checked exhaustively to implement MapSpec for    *)
(* chosen hash assignments (collisions, wrap-around clusters), including     *)
(* that lookups of every present and absent key answer correctly (Answers).  *)
EXTENDS MapSpec, GenBase
CONSTANTS NC, NK,     \* maps, keys 1..NK
          H,          \* sequence: hash of each key, 0..31 (the top five bits of the real hash)
          MaxCap, Sizes, Light
VARIABLES m, s, lab, ctr
vars == <<m, s, lab, ctr>>
Slots == 1..NC
KeySet == 1..NK
Empty == <<0, 0>>
MOff == [on |-> FALSE, t |-> <<>>, n |-> 0]
Blank(c) == [i \in 1..c |-> Empty]
NextPow2(n) == IF n <= 1 THEN 1 ELSE IF n <= 2 THEN 2 ELSE IF n <= 4 THEN 4 ELSE IF n <= 8 THEN 8
               ELSE IF n <= 16 THEN 16 ELSE IF n <= 32 THEN 32 ELSE 64
MNew(n) == [on |-> TRUE, t |-> IF n = 0 THEN <<>> ELSE Blank(NextPow2(n)), n |-> 0]
Cap(x) == Len(x.t)
Usable(c) == (c \div 4) * 3
Home(k, c) == IF c > 32 THEN H[k] * (c \div 32) ELSE H[k] \div (32 \div c)
Dist(k, i, c) == LET h == Home(k, c) IN IF h <= i THEN i - h ELSE c + i - h
Inc(i, c) == IF i = c - 1 THEN 0 ELSE i + 1

\* insert_slot: returns [t, added]
RECURSIVE Place(_, _, _, _, _)
Place(t, i, d, cell, c) ==
    LET x == t[i + 1] IN
    IF x = Empty THEN [t |-> [t EXCEPT ![i + 1] = cell], added |-> 1]
    ELSE IF x[1] = cell[1] THEN [t |-> [t EXCEPT ![i + 1] = cell], added |-> 0]
    ELSE IF Dist(x[1], i, c) < d
         THEN Place([t EXCEPT ![i + 1] = cell], Inc(i, c), Dist(x[1], i, c) + 1, x, c)
         ELSE Place(t, Inc(i, c), d + 1, cell, c)
RECURSIVE Refill(_, _, _)
Refill(cells, t, c) ==
    IF cells = <<>> THEN t
    ELSE Refill(Tail(cells), IF Head(cells) = Empty THEN t ELSE Place(t, Home(Head(cells)[1], c), 0, Head(cells), c).t, c)
MReserve(x, n) == IF n <= Cap(x) THEN x
                  ELSE LET c == NextPow2(n) IN [x EXCEPT !.t = Refill(x.t, Blank(c), c)]
MGrow(x) == MReserve(x, IF Cap(x) = 0 THEN 32 ELSE 2 * Cap(x))
MInsert(x, k, v) ==
    LET y == IF x.n >= Usable(Cap(x)) THEN MGrow(x) ELSE x
        p == Place(y.t, Home(k, Cap(y)), 0, <<k, v>>, Cap(y))
    IN [y EXCEPT !.t = p.t, !.n = y.n + p.added]
RECURSIVE Find(_, _, _, _, _)
\* index of key k (0-based) or -1, with the early termination of try_get_
Find(t, i, d, k, c) ==
    LET x == t[i + 1] IN
    IF x = Empty THEN -1
    ELSE IF x[1] = k THEN i
    ELSE IF Dist(x[1], i, c) < d THEN -1
    ELSE Find(t, Inc(i, c), d + 1, k, c)
Lookup(x, k) == IF x.n = 0 THEN -1 ELSE Find(x.t, Home(k, Cap(x)), 0, k, Cap(x))
RECURSIVE Shift(_, _, _)
Shift(t, i, c) ==
    LET j == Inc(i, c) IN
    IF t[j + 1] = Empty \/ Home(t[j + 1][1], c) = j THEN t
    ELSE Shift([t EXCEPT ![i + 1] = t[j + 1], ![j + 1] = Empty], j, c)
MErase(x, k) ==
    LET i == Lookup(x, k) IN
    IF i < 0 THEN x
    ELSE [x EXCEPT !.t = Shift([x.t EXCEPT ![i + 1] = Empty], i, Cap(x)), !.n = x.n - 1]
MWrite(x, k, v) == LET i == Lookup(x, k) IN IF i < 0 THEN x ELSE [x EXCEPT !.t[i + 1] = <<k, v>>]
MGoi(x, k, v) == IF Lookup(x, k) >= 0 THEN x ELSE MInsert(x, k, v)

DStep(t, e) ==
    LET x == t[e.c] IN
    CASE e.op = "new" -> [t EXCEPT ![e.c] = MNew(0)]
      [] e.op = "newcap" -> [t EXCEPT ![e.c] = MNew(e.n)]
      [] e.op = "init2" -> [t EXCEPT ![e.c] = MInsert(MInsert(MNew(0), e.k, e.v), e.k2, e.v + 1)]
      [] e.op \in {"ins", "emplace"} -> [t EXCEPT ![e.c] = MInsert(x, e.k, e.v)]
      [] e.op \in {"insw", "emplacew"} -> [t EXCEPT ![e.c] = MWrite(MInsert(x, e.k, e.v), e.k, e.v + 1)]
      [] e.op \in {"erase", "tryerase"} -> [t EXCEPT ![e.c] = MErase(x, e.k)]
      [] e.op \in {"getw", "trygetw", "setit"} -> [t EXCEPT ![e.c] = MWrite(x, e.k, e.v)]
      [] e.op = "goiw" -> [t EXCEPT ![e.c] = MWrite(MGoi(x, e.k, 0), e.k, e.v)]
      [] e.op \in {"goi", "goim"} -> [t EXCEPT ![e.c] = MGoi(x, e.k, 0)]
      [] e.op = "clear" -> [t EXCEPT ![e.c].t = Blank(Cap(x)), ![e.c].n = 0]
      [] e.op = "reserve" -> [t EXCEPT ![e.c] = MReserve(x, e.n)]
      [] e.op = "grow" -> [t EXCEPT ![e.c] = MGrow(x)]
      [] e.op = "drop" -> [t EXCEPT ![e.c] = MOff]
      [] e.op \in {"clone", "clonea"} -> [t EXCEPT ![e.d] = x]
      [] e.op \in {"movec", "movea"} ->
            IF e.c = e.d THEN t ELSE [t EXCEPT ![e.d] = x, ![e.c] = MNew(0)]
      [] OTHER -> t

O1(op) == {[op |-> op, c |-> c] : c \in Slots}
ON(op) == {[op |-> op, c |-> c, n |-> n] : c \in Slots, n \in Sizes}
OK(op) == {[op |-> op, c |-> c, k |-> k] : c \in Slots, k \in KeySet}
OF(op) == {[op |-> op, c |-> c, k |-> k, f |-> f] : c \in Slots, k \in KeySet, f \in 0..3}
O2 == {[op |-> "init2", c |-> c, k |-> k, k2 |-> k2] : c \in Slots, k \in KeySet, k2 \in KeySet}
OD(op) == {[op |-> op, c |-> c, d |-> d] : c \in Slots, d \in Slots}
Core == O1("new") \cup ON("newcap") \cup OK("emplacew") \cup OK("tryerase") \cup O1("probe") \cup O1("clear")
    \cup ON("reserve") \cup O1("drop") \cup OK("tryget") \cup OK("goi")
AllOps == IF Light THEN Core
    ELSE Core \cup O2 \cup OF("ins") \cup OF("insw") \cup OK("emplace") \cup OK("erase") \cup OK("get") \cup OK("getw")
    \cup OK("trygetw") \cup OK("has") \cup OK("goim") \cup OK("goiw") \cup OK("setit")
    \cup O1("grow") \cup OD("clone") \cup OD("clonea") \cup OD("movec") \cup OD("movea")
Valued == {"init2", "ins", "insw", "emplace", "emplacew", "getw", "trygetw", "goiw", "setit"}
Arg(o, v) == IF o.op \in Valued THEN o @@ [v |-> v] ELSE o

Init == m = [i \in Slots |-> MOff] /\ s = [i \in Slots |-> Off] /\ lab = [op |-> "init"] /\ ctr = 1000
Fits(o) == Legal(s, o) /\ LET t == DStep(m, Arg(o, ctr)) IN \A i \in Slots : Cap(t[i]) <= MaxCap
Do(o) == LET e == Arg(o, ctr) IN
    m' = DStep(m, e) /\ s' = After(s, e) /\ lab' = o /\ ctr' = ctr + 2
Next == \E o \in AllOps : Fits(o) /\ Do(o)
Spec == Init /\ [][Next]_vars
Kinds == {o.op : o \in AllOps}
ByKind == [k \in Kinds |-> {o \in AllOps : o.op = k}]
Nop == lab' = [op |-> "nop"] /\ UNCHANGED <<m, s>> /\ ctr' = ctr + 1
SimNext == \E k \in {RandomElement({q \in Kinds \cup {"+1", "+2", "+3", "+4", "-1", "-2", "-3"} : ctr >= 0})} :
              LET kk == IF k \in {"+1", "+2", "+3", "+4"} THEN "ins" ELSE IF k \in {"-1", "-2", "-3"} THEN "tryerase" ELSE k
                  ok == {x \in ByKind[kk] : Fits(x)} IN
              IF ok = {} THEN Nop ELSE \E o \in {RandomElement(ok)} : Do(o)
Shape(t) == [i \in Slots |-> IF t[i].on THEN [j \in 1..Cap(t[i]) |-> t[i].t[j][1]] ELSE <<-1>>]
View == Shape(m)
Emit == EmitEdge(Shape(m), lab', Shape(m'))
CellSet(x) == {x.t[j] : j \in 1..Cap(x)} \ {Empty}
Refines == \A i \in Slots :
    /\ m[i].on = s[i].on /\ CellSet(m[i]) = s[i].f
    /\ m[i].n = Cardinality(s[i].f)
    /\ Cardinality({j \in 1..Cap(m[i]) : m[i].t[j] # Empty}) = m[i].n
Answers == \A i \in Slots : \A k \in KeySet : (Lookup(m[i], k) >= 0) = Has(s[i].f, k)
\* probing always terminates: a table with entries has an empty slot
Room == \A i \in Slots : m[i].n > 0 => m[i].n < Cap(m[i])
RefinesAlways == [][Refines' /\ Answers' /\ Room']_vars
=============================================================================
