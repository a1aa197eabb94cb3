----------------------------- MODULE StrDesign -----------------------------
(* Implementation-shaped model of the string algorithms: comparison by a     *)
(* forward scan, path splitting by a backward scan that stops at index 0,    *)
(* editing by block copies. Checked for every string over the alphabet.      *)
EXTENDS StrSpec, GenBase
CONSTANTS NC, MaxLen, Codes, Lens, Full, Fresh
VARIABLES s, lab
vars == <<s, lab>>
Slots == 1..NC

RECURSIVE ScanLess(_, _, _)
ScanLess(x, y, i) ==
    IF i > Len(x) \/ i > Len(y) THEN Len(x) < Len(y)
    ELSE IF x[i] < y[i] THEN TRUE ELSE IF x[i] > y[i] THEN FALSE ELSE ScanLess(x, y, i + 1)
RECURSIVE ScanBack(_, _, _)
\* the backward loop: index (0-based) where it stops and whether it stopped at one of S
ScanBack(b, i, S) == IF b[i + 1] \in S THEN [i |-> i, hit |-> 1]
                     ELSE IF i = 0 THEN [i |-> 0, hit |-> 0] ELSE ScanBack(b, i - 1, S)
DSuffix(b) == IF b = <<>> THEN <<>> ELSE LET r == ScanBack(b, Len(b) - 1, Seps) IN SubSeq(b, r.i + r.hit + 1, Len(b))
DRemoved(b) == IF b = <<>> THEN <<>> ELSE LET r == ScanBack(b, Len(b) - 1, Seps) IN SubSeq(b, 1, r.i + r.hit)
DExt(b) == IF b = <<>> THEN <<>> ELSE LET r == ScanBack(b, Len(b) - 1, Seps \cup {46}) IN SubSeq(b, r.i + r.hit + 1, Len(b))
RECURSIVE Copy(_, _, _, _)
\* memcpy of x into b at 0-based position i
Copy(b, i, x, k) == IF k > Len(x) THEN b ELSE Copy([b EXCEPT ![i + k] = x[k]], i, x, k + 1)
Blank(n) == [j \in 1..n |-> 165]
DAppend(x, y) == Copy(Copy(Blank(Len(x) + Len(y)), 0, x, 1), Len(x), y, 1)

Algorithms ==
    /\ \A i \in Slots : LET b == s[i].b IN
         /\ PathOk(b, DSuffix(b), DRemoved(b), DExt(b))
         /\ DRemoved(b) \o DSuffix(b) = b
         /\ ~Less(b, b)
         /\ \A j \in Slots : LET d == s[j].b IN
              /\ ScanLess(b, d, 1) = Less(b, d)
              /\ (b = d) # (Less(b, d) \/ Less(d, b))
              /\ ~(Less(b, d) /\ Less(d, b))
              /\ DAppend(b, d) = b \o d
              /\ \A k \in 0..(Len(b) - Len(d)) : Copy(b, k, d, 1) = Put(b, k, d)
              /\ \A k \in Slots : Less(b, d) /\ Less(d, s[k].b) => Less(b, s[k].b)

O1(op) == {[op |-> op, c |-> c] : c \in Slots}
OMk(op) == {[op |-> op, c |-> c, n |-> n, code |-> k, k |-> r] : c \in Slots, n \in Lens, k \in Codes, r \in (IF Full THEN {1, 2, 9, 40} ELSE {1})}
OI(op) == {[op |-> op, c |-> c, i |-> i] : c \in Slots, i \in 0..(MaxLen - 1)}
OV(op) == {[op |-> op, c |-> c, i |-> i, v |-> v] : c \in Slots, i \in 0..(MaxLen - 1), v \in {0, 13}}
OS(op) == {[op |-> op, c |-> c, i |-> i, j |-> j] : c \in Slots, i \in 0..MaxLen, j \in 0..MaxLen}
OD(op) == {[op |-> op, c |-> c, d |-> d] : c \in Slots, d \in Slots}
OX(op) == {[op |-> op, c |-> c, d |-> d, x |-> x] : c \in Slots, d \in Slots, x \in Slots}
OW(op) == {[op |-> op, c |-> c, d |-> d, i |-> i] : c \in Slots, d \in Slots, i \in 0..MaxLen}
ON(op) == {[op |-> op, c |-> c, n |-> n] : c \in Slots, n \in 0..MaxLen}
OT(op) == {[op |-> op, c |-> c, x |-> x] : c \in Slots, x \in Slots}
Kinds == {"mk", "mkz", "mkw", "mki", "mkv", "get", "vget", "set", "writec", "sub", "vsub", "clone", "clonea", "str", "swap",
          "movec", "movea", "append", "vappend", "term", "vterm", "write", "vwrite", "setlen", "path", "ascii", "drop", "cmp"}
\* operators with a parameter, so that TLC does not build the sets in advance
ByKind(k) ==
    CASE k \in Making -> OMk(k) [] k \in {"get", "vget"} -> OI(k) [] k \in {"set", "writec"} -> OV(k)
      [] k \in {"sub", "vsub"} -> OS(k) [] k \in {"clone", "clonea", "str", "swap", "movec", "movea", "cmp"} -> OD(k)
      [] k \in {"append", "vappend"} -> OX(k) [] k \in {"term", "vterm"} -> OT(k)
      [] k \in {"write", "vwrite"} -> OW(k) [] k = "setlen" -> ON(k) [] OTHER -> O1(k)

NoZero(e) == e.op = "mkz" => \A i \in 1..Len(Bytes(e)) : Bytes(e)[i] # 0
Fits(e) == /\ Legal(s, e) /\ NoZero(e)
           /\ \A i \in Slots : Len(After(s, e)[i].b) <= MaxLen
\* making only into empty slots when Fresh; one code per string
Canon(e) == e.op \in Making => e.code < 16 ^ e.n /\ (Fresh => ~s[e.c].on /\ e.op = "mk")
Do(e) == s' = After(s, e) /\ lab' = e
Init == s = [i \in Slots |-> Off] /\ lab = [op |-> "init"]
Next == \E q \in Kinds : \E e \in ByKind(q) : Canon(e) /\ Fits(e) /\ Do(e)
Spec == Init /\ [][Next]_vars
View == s
Shape(t) == [i \in Slots |-> <<t[i].on, t[i].b>>]
Emit == EmitEdge(Shape(s), lab', Shape(s'))

Nop == lab' = [op |-> "nop"] /\ UNCHANGED s
\* a random element, drawn anew in every step (a constant set would be drawn from once)
R(S) == RandomElement({x \in S : lab.op # "never"})
RandomOf(k) ==
    LET c == R(Slots)
        one == [op |-> k, c |-> c]
        two == [d |-> R(Slots)] @@ one IN
    CASE k \in Making -> [n |-> R(Lens), code |-> R(Codes), k |-> R(IF Full THEN {1, 2, 9, 40} ELSE {1})] @@ one
      [] k \in {"get", "vget"} -> [i |-> R(0..Len(s[c].b))] @@ one
      [] k \in {"set", "writec"} -> [i |-> R(0..Len(s[c].b)), v |-> R(0..15)] @@ one
      [] k \in {"sub", "vsub"} -> [i |-> R(0..Len(s[c].b)), j |-> R(0..Len(s[c].b))] @@ one
      [] k \in {"clone", "clonea", "str", "swap", "movec", "movea", "cmp"} -> two
      [] k \in {"append", "vappend"} -> [x |-> R(Slots)] @@ two
      [] k \in {"term", "vterm"} -> [x |-> R(Slots)] @@ one
      [] k \in {"write", "vwrite"} -> [i |-> R(0..Len(s[c].b))] @@ two
      [] k = "setlen" -> [n |-> R(0..Len(s[c].b))] @@ one
      [] OTHER -> one
SimNext == \E k \in {R(Kinds)} : \E e \in {RandomOf(k)} : IF Fits(e) THEN Do(e) ELSE Nop
=============================================================================
