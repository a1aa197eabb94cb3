------------------------------ MODULE SeqSpec ------------------------------
(* Abstract specification of the sequence containers Vec, Stack and Array   *)
(* (property C01): each slot holds nothing or a sequence of values.          *)
(* After/Legal/Result are total functions of the abstract state and of an   *)
(* operation record; the design model (SeqDesign), the behaviour generator  *)
(* (SeqGen) and the trace checker (SeqTrace) all use this one definition.    *)
EXTENDS Integers, Sequences, TLC

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Off == [on |-> FALSE, v |-> <<>>]
On(v) == [on |-> TRUE, v |-> v]
Rep(x, n) == [i \in 1..n |-> x]
Upto(v, n) == [i \in 1..n |-> v + i - 1]
Trunc(v, n) == IF n <= Len(v) THEN SubSeq(v, 1, n) ELSE v \o Rep(0, n - Len(v))

\* operations that need their operand c (and d) to be present
Creates == {"new", "newcap", "make", "init3"}
OnOne == {"push", "pushc", "emplace", "pop", "clear", "reserve", "grow", "resize", "extend",
          "set", "setit", "setslice", "settop", "fill", "get", "probe", "sub", "drop",
          "clone", "movec"}
OnTwo == {"clonea", "movea"}

\* calls the library accepts; anything else must be refused by stopping (property C23)
Legal(s, e) ==
    /\ e.op \in OnOne \cup OnTwo => s[e.c].on
    /\ e.op \in OnTwo => s[e.d].on
    /\ e.op = "movec" => e.d # e.c
    /\ e.op \in {"pop", "settop"} => s[e.c].v # <<>>
    /\ e.op \in {"set", "setit", "setslice", "get"} => e.i >= 0 /\ e.i < Len(s[e.c].v)
    /\ e.op = "sub" => e.i >= 0 /\ e.n >= 0 /\ e.i + e.n <= Len(s[e.c].v)

\* The contents of slot c after e, when e changes them; values of new elements are e.v onwards.
\* capacity is what the container reported before the call.
After(s, e, arr, capacity) ==
    LET v == s[e.c].v IN
    CASE e.op = "new" -> [s EXCEPT ![e.c] = On(IF arr THEN Rep(0, 3) ELSE <<>>)]
      [] e.op = "newcap" -> [s EXCEPT ![e.c] = On(<<>>)]
      [] e.op = "make" -> [s EXCEPT ![e.c] = On(Rep(0, e.n))]
      [] e.op = "init3" -> [s EXCEPT ![e.c] = On(Upto(e.v, 3))]
      [] e.op \in {"push", "pushc", "emplace"} -> [s EXCEPT ![e.c] = On(Append(v, e.v))]
      [] e.op = "pop" -> [s EXCEPT ![e.c] = On(SubSeq(v, 1, Len(v) - 1))]
      [] e.op = "clear" -> [s EXCEPT ![e.c] = On(<<>>)]
      [] e.op = "resize" -> [s EXCEPT ![e.c] = On(Trunc(v, e.n))]
      [] e.op = "extend" -> [s EXCEPT ![e.c] = On(Trunc(v, Len(v) + e.n))]
      [] e.op \in {"set", "setit", "setslice"} -> [s EXCEPT ![e.c] = On([v EXCEPT ![e.i + 1] = e.v])]
      [] e.op = "settop" -> [s EXCEPT ![e.c] = On([v EXCEPT ![Len(v)] = e.v])]
      [] e.op = "fill" -> [s EXCEPT ![e.c] = On(v \o Upto(e.v, capacity - Len(v)))]
      [] e.op = "drop" -> [s EXCEPT ![e.c] = Off]
      [] e.op \in {"clone", "clonea"} -> [s EXCEPT ![e.d] = On(v)]
      [] e.op \in {"movec", "movea"} ->
            IF e.c = e.d THEN s
            ELSE [s EXCEPT ![e.d] = On(v), ![e.c] = IF arr THEN Off ELSE On(<<>>)]
      [] OTHER -> s \* reserve, grow, get, probe, sub

\* what the call reports
Result(s, e, stack) ==
    LET v == s[e.c].v IN
    CASE e.op = "push" -> <<e.v>>
      [] e.op = "emplace" -> <<e.v>>
      [] e.op = "pushc" -> <<e.v, e.v>>
      [] e.op = "get" -> <<v[e.i + 1], v[e.i + 1]>>
      [] e.op = "sub" -> SubSeq(v, e.i + 1, e.i + e.n)
      [] e.op = "probe" -> LET f == v[1]
                               b == v[Len(v)]
                           IN IF v = <<>> THEN <<>>
                              ELSE IF stack THEN <<b, b>> ELSE <<f, f, b, b, f, b>>
      [] OTHER -> <<>>
=============================================================================
