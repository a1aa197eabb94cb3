----------------------------- MODULE MisuseSpec -----------------------------
(* What may be asked of each kind of object in each state, what a permitted  *)
(* request yields and leads to, and that all others end the process.         *)
(* An object is its kind k and its elements q (for owners: <<value>> or      *)
(* <<>>), and for strings the capacity c.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Vec == 1  Queue == 2  Stack == 3  Heap == 4  Arr == 5  Slice == 6  Str == 7  View == 8  Map == 9
Opt == 10 Box == 11 Rc == 12 Arc == 13 Ref == 14 Fun == 15 Thr == 16 Task == 17 Sub == 18 Mat == 19 Region == 20
Owners == {Opt, Box, Rc, Arc, Ref, Fun, Thr, Task}
MaxDepth == 127
None == [k |-> 0, q |-> <<>>, c |-> 0]
Iota(n) == [i \in 1..n |-> i]
\* arguments below zero stand for numbers too large for anything: -1 is 2^64 - 1, -2 is 2^64 - 2, -3 is 2^63, -4 is 2^32, -5 is 2^32 + 1
In(q, i) == i >= 0 /\ i < Len(q)
Least(q) == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i] <= q[j]
Index(q, v) == CHOOSE i \in 1..Len(q) : q[i] = v
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Has(q, v) == \E i \in 1..Len(q) : q[i] = v
\* what an operation applies to
Applies(s, e) ==
    CASE e.op = "make" -> s.k = 0 /\ e.k \in 1..20 /\ (e.k \in Owners => e.n \in 0..1) /\ (e.k \in {Arr, Mat} => e.n = 4) /\ (e.k \in {Sub, Region} => e.n = 0)
      [] e.op = "push" -> s.k \in {Vec, Queue, Stack, Heap, Sub, Region} \/ (s.k = Map /\ ~Has(s.q, e.v)) \/ (s.k \in Owners /\ s.q = <<>>)
      [] e.op = "drop" -> s.k \in Owners \ {Thr} /\ s.q # <<>>
      [] e.op = "clear" -> s.k \in {Vec, Queue, Stack, Heap, Map}
      [] e.op = "pop" -> s.k \in {Vec, Queue, Stack, Heap}
      [] e.op = "at" -> s.k \in {Vec, Queue, Arr, Slice, Str, View, Mat}
      [] e.op \in {"front", "back"} -> s.k \in {Vec, Queue, Slice}
      [] e.op = "pen" -> s.k = Queue
      [] e.op = "top" -> s.k \in {Stack, Heap}
      [] e.op = "sub" -> s.k \in {Slice, Str, View}
      [] e.op \in {"setlen", "writec", "writes", "writev"} -> s.k = Str
      [] e.op = "get" -> s.k = Map
      [] e.op = "erase" -> s.k \in {Map, Sub}
      [] e.op = "deref" -> s.k \in Owners
      [] e.op = "arrow" -> s.k \in Owners \ {Fun}
      \* a task that was started is never resumed from outside
      [] e.op = "leave" -> s.k = Thr \/ (s.k = Task /\ s.q = <<>>)
      [] e.op = "nest" -> s.k = Region
\* whether it is a correct use
Correct(s, e) ==
    LET n == Len(s.q) IN
    CASE e.op = "pop" -> n > 0
      [] e.op = "at" -> In(s.q, e.i)
      [] e.op \in {"front", "back", "top"} -> n > 0
      [] e.op = "pen" -> n > 1
      [] e.op = "sub" -> IF s.k = Slice THEN e.i >= 0 /\ e.j >= 0 /\ e.i + e.j <= n ELSE e.i >= 0 /\ e.j >= e.i /\ e.j <= n
      [] e.op = "setlen" -> e.i >= 0 /\ e.i <= s.c
      [] e.op = "writec" -> In(s.q, e.i)
      [] e.op \in {"writes", "writev"} -> e.i >= 0 /\ e.i + e.j <= n
      [] e.op = "get" -> Has(s.q, e.i)
      [] e.op = "erase" -> IF s.k = Map THEN Has(s.q, e.i) ELSE In(s.q, e.i) /\ s.q[e.i + 1] = 1
      [] e.op \in {"deref", "arrow", "leave"} -> n = 1
      [] e.op = "push" -> s.k # Region \/ n < MaxDepth
      [] e.op = "nest" -> n + e.n <= MaxDepth
      [] OTHER -> TRUE
Overwrite(q, i, j, v) == [x \in 1..Len(q) |-> IF x > i /\ x <= i + j THEN v ELSE q[x]]
After(s, e) ==
    CASE e.op = "make" -> [k |-> e.k, q |-> IF e.k \in Owners THEN [i \in 1..e.n |-> 7] ELSE Iota(e.n), c |-> e.n + e.c]
      [] e.op = "push" -> [s EXCEPT !.q = Append(@, IF s.k \in Owners THEN 7 ELSE IF s.k \in {Sub, Region} THEN 1 ELSE e.v)]
      [] e.op \in {"drop", "clear", "leave"} -> [s EXCEPT !.q = <<>>]
      [] e.op = "pop" -> [s EXCEPT !.q = IF s.k = Queue THEN Tail(@) ELSE IF s.k = Heap THEN Without(@, Least(@)) ELSE SubSeq(@, 1, Len(@) - 1)]
      [] e.op = "writec" -> [s EXCEPT !.q = Overwrite(@, e.i, 1, 99)]
      [] e.op \in {"writes", "writev"} -> [s EXCEPT !.q = Overwrite(@, e.i, e.j, 50)]
      \* what is beyond the old length is unknown, so a longer one is taken back at once
      [] e.op = "setlen" -> IF e.i <= Len(s.q) THEN [s EXCEPT !.q = SubSeq(@, 1, e.i)] ELSE s
      [] e.op = "erase" -> IF s.k = Map THEN [s EXCEPT !.q = Without(@, Index(@, e.i))] ELSE [s EXCEPT !.q[e.i + 1] = 0]
      [] e.op = "nest" -> [s EXCEPT !.q = @ \o [i \in 1..e.n |-> 1]]
      [] OTHER -> s
\* a thread that was joined is gone, and so is the result of a task that was taken
Spent(s, e) == IF e.op = "deref" /\ s.k = Thr THEN [s EXCEPT !.q = <<>>] ELSE After(s, e)
Yields(s, e) ==
    LET n == Len(s.q) IN
    CASE e.op = "at" -> <<s.q[e.i + 1]>>
      [] e.op = "front" -> <<s.q[1]>>
      [] e.op = "back" -> <<s.q[n]>>
      [] e.op = "pen" -> <<s.q[n - 1]>>
      [] e.op = "top" -> <<IF s.k = Heap THEN s.q[Least(s.q)] ELSE s.q[n]>>
      [] e.op = "sub" -> IF s.k = Slice THEN SubSeq(s.q, e.i + 1, e.i + e.j) ELSE SubSeq(s.q, e.i + 1, e.j)
      [] e.op = "setlen" -> <<e.i>>
      [] e.op = "writec" -> <<e.i + 1>> \o After(s, e).q
      [] e.op \in {"writes", "writev"} -> <<e.i + e.j>> \o After(s, e).q
      [] e.op = "get" -> <<e.i + 100>>
      [] e.op \in {"deref", "arrow"} -> <<7>>
      [] OTHER -> <<>>
=============================================================================
