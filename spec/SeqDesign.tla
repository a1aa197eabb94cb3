----------------------------- MODULE SeqDesign -----------------------------
(* Implementation-shaped model of rpp::Vec: a block of capacity cells whose *)
(* first `len` cells hold live elements, doubling growth, reserve that moves *)
(* every live element into a new block. It is checked exhaustively to        *)
(* implement SeqSpec (Refines) and never to leave a live element outside the *)
(* prefix (NoStray); its transitions, printed by Emit, are the test suite    *)
(* replayed on the code: every (present, length, capacity) shape of every    *)
(* container and every operation from it.                                    *)
EXTENDS SeqSpec, GenBase

CONSTANTS NC,      \* containers
          MaxLen, MaxCap, \* bounds of the explored shapes
          Sizes,   \* arguments of reserve, resize, newcap, make, extend
          Mode     \* 0 = Vec, 1 = Stack, 2 = Array
VARIABLES m, s, lab, ctr

vars == <<m, s, lab, ctr>>
Slots == 1..NC
Hole == -1
MOff == [on |-> FALSE, buf |-> <<>>, len |-> 0]
Abs(x) == [on |-> x.on, v |-> SubSeq(x.buf, 1, x.len)]
Blk(v, cap) == [on |-> TRUE, buf |-> v \o Rep(Hole, cap - Len(v)), len |-> Len(v)]

\* Vec::reserve
MReserve(x, n) == IF n <= Len(x.buf) THEN x
                  ELSE [x EXCEPT !.buf = SubSeq(x.buf, 1, x.len) \o Rep(Hole, n - x.len)]
MGrow(x) == MReserve(x, IF Len(x.buf) = 0 THEN 8 ELSE 2 * Len(x.buf))
MPush(x, v) == LET y == IF x.len = Len(x.buf) THEN MGrow(x) ELSE x
               IN [y EXCEPT !.buf[y.len + 1] = v, !.len = y.len + 1]
\* destroys cells from n on
MCut(x, n) == [x EXCEPT !.buf = SubSeq(x.buf, 1, n) \o Rep(Hole, Len(x.buf) - n), !.len = n]
MResize(x, n) == IF n <= x.len THEN MCut(x, n)
                 ELSE LET y == MReserve(x, n)
                      IN [y EXCEPT !.buf = SubSeq(y.buf, 1, y.len) \o Rep(0, n - y.len)
                                            \o SubSeq(y.buf, n + 1, Len(y.buf)), !.len = n]
MSet(x, i, v) == [x EXCEPT !.buf[i + 1] = v]

DStep(t, e) ==
    LET x == t[e.c] IN
    CASE e.op = "new" -> [t EXCEPT ![e.c] = IF Mode = 2 THEN Blk(Rep(0, 3), 3) ELSE Blk(<<>>, 0)]
      [] e.op = "newcap" -> [t EXCEPT ![e.c] = Blk(<<>>, e.n)]
      [] e.op = "make" -> [t EXCEPT ![e.c] = Blk(Rep(0, e.n), e.n)]
      [] e.op = "init3" -> [t EXCEPT ![e.c] = Blk(Upto(e.v, 3), 3)]
      [] e.op \in {"push", "pushc", "emplace"} -> [t EXCEPT ![e.c] = MPush(x, e.v)]
      [] e.op = "pop" -> [t EXCEPT ![e.c] = MCut(x, x.len - 1)]
      [] e.op = "clear" -> [t EXCEPT ![e.c] = MCut(x, 0)]
      [] e.op = "reserve" -> [t EXCEPT ![e.c] = MReserve(x, e.n)]
      [] e.op = "grow" -> [t EXCEPT ![e.c] = MGrow(x)]
      [] e.op = "resize" -> [t EXCEPT ![e.c] = MResize(x, e.n)]
      [] e.op = "extend" -> [t EXCEPT ![e.c] = MResize(x, x.len + e.n)]
      [] e.op \in {"set", "setit", "setslice"} -> [t EXCEPT ![e.c] = MSet(x, e.i, e.v)]
      [] e.op = "settop" -> [t EXCEPT ![e.c] = MSet(x, x.len - 1, e.v)]
      [] e.op = "fill" -> [t EXCEPT ![e.c] = Blk(SubSeq(x.buf, 1, x.len)
                                                 \o Upto(e.v, Len(x.buf) - x.len), Len(x.buf))]
      [] e.op = "drop" -> [t EXCEPT ![e.c] = MOff]
      [] e.op \in {"clone", "clonea"} -> [t EXCEPT ![e.d] = x]
      [] e.op \in {"movec", "movea"} ->
            IF e.c = e.d THEN t
            ELSE [t EXCEPT ![e.d] = x, ![e.c] = IF Mode = 2 THEN MOff ELSE Blk(<<>>, 0)]
      [] OTHER -> t

O1(op) == {[op |-> op, c |-> c] : c \in Slots}
ON(op) == {[op |-> op, c |-> c, n |-> n] : c \in Slots, n \in Sizes}
OI(op) == {[op |-> op, c |-> c, i |-> i] : c \in Slots, i \in 0..(MaxLen - 1)}
OD(op) == {[op |-> op, c |-> c, d |-> d] : c \in Slots, d \in Slots}
OS == {[op |-> "sub", c |-> c, i |-> i, n |-> n] : c \in Slots, i \in 0..MaxLen, n \in {0, 1, MaxLen}}

AllOps ==
    OD("clone") \cup OD("clonea") \cup OD("movec") \cup OD("movea") \cup O1("new") \cup O1("drop")
    \cup O1("init3") \cup O1("probe")
    \cup (IF Mode = 0 THEN ON("newcap") \cup ON("make") \cup ON("reserve") \cup ON("resize") \cup ON("extend")
              \cup O1("grow") \cup O1("fill") \cup OS \cup OI("setslice") \cup OI("set") \cup OI("get") ELSE {})
    \cup (IF Mode < 2 THEN O1("push") \cup O1("pushc") \cup O1("emplace") \cup O1("pop") \cup O1("clear") \cup OI("setit") ELSE {})
    \cup (IF Mode = 1 THEN O1("settop") \cup ON("newcap") ELSE {})
    \cup (IF Mode = 2 THEN OI("set") ELSE {})

Grows == {"push", "pushc", "emplace", "init3", "fill", "set", "setit", "setslice", "settop"}
Arg(e, v) == IF e.op \in Grows THEN e @@ [v |-> v] ELSE e
Cap(t, e) == Len(t[e.c].buf)

Init == /\ m = [i \in Slots |-> MOff]
        /\ s = [i \in Slots |-> Off]
        /\ lab = [op |-> "init"]
        /\ ctr = 100

Do(o) ==
    LET e == Arg(o, ctr) IN
    /\ Legal(s, e)
    /\ m' = DStep(m, e)
    /\ \A i \in Slots : m'[i].len <= MaxLen /\ Len(m'[i].buf) <= MaxCap
    /\ s' = After(s, e, Mode = 2, Cap(m, e))
    /\ lab' = o
    /\ ctr' = ctr + MaxCap

Next == \E o \in AllOps : Do(o)
\* random walks over larger shapes: a random kind of operation, then a random instance of it
Fits(o) == LET e == Arg(o, ctr) IN
    Legal(s, e) /\ \A i \in Slots : LET x == DStep(m, e)[i] IN x.len <= MaxLen /\ Len(x.buf) <= MaxCap
Kinds == {o.op : o \in AllOps}
ByKind == [k \in Kinds |-> {o \in AllOps : o.op = k}]
Nop == lab' = [op |-> "nop"] /\ UNCHANGED <<m, s, ctr>>
SimNext == \E k \in {RandomElement({q \in Kinds : ctr >= 0})} :
              LET ok == {x \in ByKind[k] : Fits(x)} IN
              IF ok = {} THEN Nop ELSE \E o \in {RandomElement(ok)} : Do(o)
Spec == Init /\ [][Next]_vars

Shape(t) == [i \in Slots |-> [on |-> t[i].on, len |-> t[i].len, cap |-> Len(t[i].buf)]]
View == Shape(m)
Emit == EmitEdge(Shape(m), lab', Shape(m'))

Refines == \A i \in Slots : Abs(m[i]) = s[i]
NoStray == \A i \in Slots : \A k \in 1..Len(m[i].buf) : (k <= m[i].len) = (m[i].buf[k] # Hole)
RefinesAlways == [][Refines' /\ NoStray']_vars
=============================================================================
