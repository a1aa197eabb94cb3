---------------------------- MODULE QueueDesign ----------------------------
(* Implementation-shaped model of rpp::Queue: a ring of capacity cells, the  *)
(* index `last` of the next free cell and the length; growth unrolls the     *)
(* ring, erase_first closes the gap cell by cell. Checked exhaustively to    *)
(* implement QueueSpec; its transitions cover every (capacity, last, length) *)
(* layout with every operation.                                              *)
EXTENDS QueueSpec, GenBase
CONSTANTS NC, MaxLen, MaxCap, Sizes
VARIABLES m, s, lab, ctr
vars == <<m, s, lab, ctr>>
Slots == 1..NC
Hole == -1
MOff == [on |-> FALSE, buf |-> <<>>, last |-> 0, len |-> 0]
MNew(n) == [on |-> TRUE, buf |-> [i \in 1..n |-> Hole], last |-> 0, len |-> 0]
Cap(x) == Len(x.buf)
Start(x) == IF x.last - x.len < 0 THEN x.last - x.len + Cap(x) ELSE x.last - x.len
At(x, i) == LET k == Start(x) + i IN IF k >= Cap(x) THEN k - Cap(x) ELSE k
Abs(x) == [on |-> x.on, v |-> [i \in 1..x.len |-> x.buf[At(x, i - 1) + 1]]]
Inc(x, i) == IF i = Cap(x) - 1 THEN 0 ELSE i + 1
Dec(x, i) == IF i = 0 THEN Cap(x) - 1 ELSE i - 1

MReserve(x, n) ==
    IF n <= Cap(x) THEN x
    ELSE LET cells == IF x.len <= x.last
                      THEN SubSeq(x.buf, x.last - x.len + 1, x.last)
                      ELSE SubSeq(x.buf, Cap(x) + x.last - x.len + 1, Cap(x)) \o SubSeq(x.buf, 1, x.last)
         IN [x EXCEPT !.buf = cells \o [i \in 1..(n - x.len) |-> Hole], !.last = x.len]
MGrow(x) == MReserve(x, IF Cap(x) = 0 THEN 8 ELSE 2 * Cap(x))
MPush(x, v) == LET y == IF x.len = Cap(x) THEN MGrow(x) ELSE x
               IN [y EXCEPT !.buf[y.last + 1] = v, !.last = Inc(y, y.last), !.len = y.len + 1]
MPop(x) == [x EXCEPT !.buf[Start(x) + 1] = Hole, !.len = x.len - 1]
MClear(x) == [x EXCEPT !.buf = [i \in 1..Cap(x) |-> Hole], !.last = 0, !.len = 0]
MSet(x, i, v) == [x EXCEPT !.buf[At(x, i) + 1] = v]

RECURSIVE MClose(_, _, _)
\* moves the cells after position i (0-based, sequence order) one place towards the front
MClose(buf, x, i) ==
    IF i + 1 >= x.len THEN [buf EXCEPT ![At(x, x.len - 1) + 1] = Hole]
    ELSE MClose([buf EXCEPT ![At(x, i) + 1] = buf[At(x, i + 1) + 1]], x, i + 1)
MErase(x, v) ==
    LET P == Positions(Abs(x).v, v) IN
    IF P = {} THEN x
    ELSE [x EXCEPT !.buf = MClose(x.buf, x, First(P) - 1), !.len = x.len - 1, !.last = Dec(x, x.last)]

DStep(t, e) ==
    LET x == t[e.c] IN
    CASE e.op = "new" -> [t EXCEPT ![e.c] = MNew(0)]
      [] e.op = "newcap" -> [t EXCEPT ![e.c] = MNew(e.n)]
      [] e.op = "init3" -> [t EXCEPT ![e.c] = MPush(MPush(MPush(MNew(3), e.v), e.v + 1), e.v + 2)]
      [] e.op \in {"push", "pushc", "emplace", "pushdup"} -> [t EXCEPT ![e.c] = MPush(x, e.v)]
      [] e.op = "pop" -> [t EXCEPT ![e.c] = MPop(x)]
      [] e.op = "clear" -> [t EXCEPT ![e.c] = MClear(x)]
      [] e.op = "reserve" -> [t EXCEPT ![e.c] = MReserve(x, e.n)]
      [] e.op = "grow" -> [t EXCEPT ![e.c] = MGrow(x)]
      [] e.op \in {"set", "setit"} -> [t EXCEPT ![e.c] = MSet(x, e.i, e.v)]
      [] e.op = "setfront" -> [t EXCEPT ![e.c] = MSet(x, 0, e.v)]
      [] e.op = "setback" -> [t EXCEPT ![e.c] = MSet(x, x.len - 1, e.v)]
      [] e.op = "setpen" -> [t EXCEPT ![e.c] = MSet(x, x.len - 2, e.v)]
      [] e.op = "erase" -> [t EXCEPT ![e.c] = MErase(x, e.v)]
      [] e.op = "drop" -> [t EXCEPT ![e.c] = MOff]
      [] e.op \in {"clone", "clonea"} -> [t EXCEPT ![e.d] = x]
      [] e.op \in {"movec", "movea"} ->
            IF e.c = e.d THEN t ELSE [t EXCEPT ![e.d] = x, ![e.c] = MNew(0)]
      [] OTHER -> t

O1(op) == {[op |-> op, c |-> c] : c \in Slots}
ON(op) == {[op |-> op, c |-> c, n |-> n] : c \in Slots, n \in Sizes}
OI(op, lo) == {[op |-> op, c |-> c, i |-> i] : c \in Slots, i \in lo..(MaxLen - 1)}
OD(op) == {[op |-> op, c |-> c, d |-> d] : c \in Slots, d \in Slots}
AllOps == O1("new") \cup ON("newcap") \cup O1("init3") \cup O1("push") \cup O1("pushc") \cup O1("emplace")
    \cup OI("pushdup", 0) \cup O1("pop") \cup O1("clear") \cup ON("reserve") \cup O1("grow")
    \cup OI("set", 0) \cup OI("setit", 0) \cup O1("setfront") \cup O1("setback") \cup O1("setpen")
    \cup OI("erase", -1) \cup OI("get", 0) \cup O1("probe") \cup O1("drop")
    \cup OD("clone") \cup OD("clonea") \cup OD("movec") \cup OD("movea")
Fresh == {"push", "pushc", "emplace", "init3", "set", "setit", "setfront", "setback", "setpen"}
Arg(o, t, v) == IF o.op \in Fresh THEN o @@ [v |-> v]
                ELSE IF o.op \in {"erase", "pushdup"}
                     THEN o @@ [v |-> IF o.i < 0 THEN 9999 ELSE t[o.c].v[o.i + 1]]
                     ELSE o

Init == /\ m = [i \in Slots |-> MOff] /\ s = [i \in Slots |-> Off]
        /\ lab = [op |-> "init"] /\ ctr = 100
Fits(o) == /\ Legal(s, o)
           /\ LET t == DStep(m, Arg(o, s, ctr)) IN \A i \in Slots : t[i].len <= MaxLen /\ Cap(t[i]) <= MaxCap
Do(o) == LET e == Arg(o, s, ctr) IN
    /\ m' = DStep(m, e) /\ s' = After(s, e) /\ lab' = o /\ ctr' = ctr + 3
Next == \E o \in AllOps : Fits(o) /\ Do(o)
Spec == Init /\ [][Next]_vars

Kinds == {o.op : o \in AllOps}
ByKind == [k \in Kinds |-> {o \in AllOps : o.op = k}]
Nop == lab' = [op |-> "nop"] /\ UNCHANGED <<m, s, ctr>>
SimNext == \E k \in {RandomElement({q \in Kinds : ctr >= 0})} :
              LET ok == {x \in ByKind[k] : Fits(x)} IN
              IF ok = {} THEN Nop ELSE \E o \in {RandomElement(ok)} : Do(o)

Shape(t) == [i \in Slots |-> [on |-> t[i].on, cap |-> Cap(t[i]), last |-> t[i].last, len |-> t[i].len]]
View == Shape(m)
Emit == EmitEdge(Shape(m), lab', Shape(m'))
Refines == \A i \in Slots : Abs(m[i]) = s[i]
\* every live element lies in a cell of the window, every other cell is empty
NoStray == \A i \in Slots :
    {k \in 1..Cap(m[i]) : m[i].buf[k] # Hole} = {At(m[i], j) + 1 : j \in 0..(m[i].len - 1)}
RefinesAlways == [][Refines' /\ NoStray']_vars
=============================================================================
