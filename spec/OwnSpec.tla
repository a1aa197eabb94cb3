------------------------------ MODULE OwnSpec ------------------------------
(* Abstract specification of rpp's owning wrappers (C06): Box, Opt, Variant, *)
(* Function, Pair and Tuple. A slot holds a list of contents [k, v]: the     *)
(* alternative (variant index, closure kind, dynamic type) and the value.    *)
(* For Box, Opt, Variant and Function the list is the chain of owners        *)
(* reached through the content (a node owning the next owner), for Pair and  *)
(* Tuple it is the components. The empty list is "nothing". A slot whose     *)
(* content was moved away (mv) may only be assigned, cleared or destroyed,   *)
(* except that a Box is then empty and calling a Function is refused.        *)
EXTENDS Integers, Sequences, TLC

BOX == 1  OPT == 2  VAR == 3  VAR9 == 4  VART == 5  FN == 6  PAIR == 7  TUPLE == 8
\* variants of eight and nine alternatives (at the library's limit for direct dispatch)
V8 == 9  V9 == 10
\* alternatives of one type told apart by a name
VN == 11
Types == 1..11
Variants == {VAR, VAR9, VART, V8, V9, VN}
Off == [on |-> FALSE, mv |-> FALSE, c |-> <<>>]
On(c) == [on |-> TRUE, mv |-> FALSE, c |-> c]
Gone == [on |-> TRUE, mv |-> TRUE, c |-> <<>>]
Emptyable(ty) == ty \in {BOX, OPT}
Chained(ty) == ty \in {BOX, OPT, VAR, FN}
LinkAlt(ty) == IF ty \in {VAR, FN} THEN 3 ELSE 0
Alts(ty) == CASE ty = BOX -> {0, 1} [] ty = OPT -> {0} [] ty = VAR -> 0..3 [] ty = VAR9 -> 0..9 [] ty = V8 -> 0..7 [] ty = V9 -> 0..8 [] ty = VN -> 0..3
              [] ty = VART -> 0..2 [] ty = FN -> 0..3 [] OTHER -> {0}
Width(ty) == CASE ty = PAIR -> 2 [] ty = TUPLE -> 3 [] OTHER -> 1
Make(ty, k, v) == [i \in 1..Width(ty) |-> [k |-> k, v |-> v + i - 1]]
AfterMove(ty) == IF ty = BOX THEN On(<<>>) ELSE Gone
Live(x) == x.on /\ ~x.mv

Replacing == {"emplace", "assign"}
Reading == {"get", "getc", "arrow", "invoke"}
Legal(ty, s, e) ==
    LET x == s[e.c] IN
    CASE e.op = "new" -> Emptyable(ty)
      [] e.op = "mk" -> e.k \in Alts(ty)
      [] e.op \in Replacing -> x.on /\ e.k \in Alts(ty)
      [] e.op = "clear" -> x.on /\ Emptyable(ty)
      [] e.op = "wrap" -> Live(x) /\ Chained(ty) /\ (Emptyable(ty) \/ x.c # <<>>)
      [] e.op = "adv" -> Live(x) /\ Chained(ty) /\ Len(x.c) > IF ty = BOX THEN 0 ELSE 1
      [] e.op = "advv" -> Live(x) /\ ty = OPT /\ Len(x.c) > 1
      [] e.op = "clone" -> Live(x) /\ ty # FN /\ (ty = BOX => \A i \in 1..Len(x.c) : x.c[i].k = 0)
      [] e.op = "clonea" -> Live(x) /\ s[e.d].on /\ ty # FN /\ (ty = BOX => \A i \in 1..Len(x.c) : x.c[i].k = 0)
      [] e.op = "movec" -> Live(x) /\ e.c # e.d
      [] e.op = "movea" -> Live(x) /\ s[e.d].on
      [] e.op \in Reading -> Live(x) /\ x.c # <<>>
      [] e.op = "set" -> Live(x) /\ x.c # <<>> /\ ty # FN /\ e.i >= 0 /\ e.i < Width(ty)
      [] e.op = "valor" -> Live(x) /\ ty = OPT
      [] e.op = "ok" -> Live(x)
      [] e.op = "take" -> Live(x) /\ ty \in Variants \* the content is moved out by the visitor
      [] e.op = "drop" -> x.on
      [] OTHER -> FALSE

After(ty, s, e) ==
    LET x == s[e.c] IN
    CASE e.op = "new" -> [s EXCEPT ![e.c] = On(<<>>)]
      [] e.op \in {"mk"} \cup Replacing -> [s EXCEPT ![e.c] = On(Make(ty, e.k, e.v))]
      [] e.op = "clear" -> [s EXCEPT ![e.c] = On(<<>>)]
      [] e.op = "wrap" -> [s EXCEPT ![e.c] = On(<<[k |-> LinkAlt(ty), v |-> e.v]>> \o x.c)]
      [] e.op \in {"adv", "advv"} -> [s EXCEPT ![e.c] = On(Tail(x.c))]
      [] e.op \in {"clone", "clonea"} -> [s EXCEPT ![e.d] = On(x.c)]
      [] e.op \in {"movec", "movea"} ->
            IF e.c = e.d THEN s ELSE [s EXCEPT ![e.d] = On(x.c), ![e.c] = AfterMove(ty)]
      [] e.op = "set" -> [s EXCEPT ![e.c].c[e.i + 1].v = e.v]
      [] e.op = "take" -> [s EXCEPT ![e.c] = Gone]
      [] e.op = "drop" -> [s EXCEPT ![e.c] = Off]
      [] OTHER -> s

Flat(c) == [i \in 1..(2 * Len(c)) |-> IF i % 2 = 1 THEN c[(i + 1) \div 2].k ELSE c[i \div 2].v]
B(b) == IF b THEN 1 ELSE 0
Result(ty, s, e) ==
    LET c == s[e.c].c IN
    CASE e.op \in {"get", "getc", "arrow", "take"} ->
            IF ty \in {PAIR, TUPLE} THEN Flat(c) ELSE <<c[1].k, c[1].v>>
      [] e.op = "invoke" -> IF ty = TUPLE THEN <<c[1].v, c[2].v, c[3].v>>
                            ELSE <<c[1].k, c[1].v + e.a>>
      [] e.op = "ok" -> <<IF Emptyable(ty) THEN B(c # <<>>) ELSE 1>>
      [] e.op = "valor" -> IF c = <<>> THEN <<-5>> ELSE <<c[1].v>>
      [] OTHER -> <<>>
=============================================================================
