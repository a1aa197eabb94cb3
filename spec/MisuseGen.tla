------------------------------ MODULE MisuseGen -----------------------------
(* Every request on both sides of every precondition in every small state;   *)
(* what must be refused is marked bad. h counts removals so that equal       *)
(* contents are also reached with different histories (positions, stale      *)
(* elements).                                                                *)
EXTENDS MisuseSpec, GenBase
CONSTANTS MaxLen, MaxH, Kinds
VARIABLES s, h, lab
vars == <<s, h, lab>>
Init == s = None /\ h = 0 /\ lab = [op |-> "init"]
Huge == {-1, -2, -3, -4, -5}
Idx == IF s.k = Region THEN {0} ELSE 0..(Len(s.q) + 2) \cup Huge
Few == 0..(Len(s.q) + 1) \cup {-1}
Keys == 1..(MaxLen + 1)
Ops == {[op |-> "make", k |-> k, n |-> n, c |-> c] : k \in Kinds \cap {Slice, Str, View, Arr, Mat}, n \in 0..4, c \in 0..1}
       \cup {[op |-> "make", k |-> k, n |-> n, c |-> 0] : k \in Kinds \ {Slice, Str, View, Arr, Mat}, n \in 0..1}
       \cup {[op |-> "push", v |-> v] : v \in IF s.k = Map THEN Keys ELSE IF s.k = Heap THEN {2, 3} ELSE {Len(s.q) + 1}}
       \cup {[op |-> o] : o \in {"clear", "pop", "leave"}}
       \cup {[op |-> "drop", v |-> v] : v \in 0..1}
       \cup {[op |-> o, v |-> v] : o \in {"front", "back", "pen", "top", "deref", "arrow"}, v \in 0..1}
       \cup {[op |-> "at", i |-> i, v |-> v] : i \in Idx, v \in 0..1}
       \cup {[op |-> "sub", i |-> i, j |-> j] : i \in Idx, j \in Few}
       \cup {[op |-> "sub", i |-> i, j |-> j] : i \in Few, j \in Huge}
       \cup {[op |-> "sub", i |-> i, j |-> i] : i \in Huge}
       \cup {[op |-> "setlen", i |-> i] : i \in 0..(s.c + 1) \cup Huge}
       \cup {[op |-> "writec", i |-> i] : i \in Idx}
       \cup {[op |-> o, i |-> i, j |-> j] : o \in {"writes", "writev"}, i \in Idx, j \in 0..(Len(s.q) + 1)}
       \cup {[op |-> "get", i |-> i, v |-> v] : i \in Keys, v \in 0..1}
       \cup {[op |-> "erase", i |-> i] : i \in Keys \cup 0..(Len(s.q) + 1)}
       \cup {[op |-> "nest", n |-> n] : n \in {1, 100, 126, 127, 128}}
Next == \E e \in Ops :
    /\ Applies(s, e) /\ (e.op = "make" => (e.k = Map => e.n = 0))
    /\ IF ~Correct(s, e) THEN lab' = e @@ [bad |-> 1] /\ UNCHANGED <<s, h>>
       ELSE /\ (e.op = "push" /\ s.k # Region => Len(s.q) < MaxLen)
            /\ (e.op \in {"pop", "clear", "erase"} => h < MaxH)
            /\ lab' = e /\ s' = Spent(s, e)
            /\ h' = (IF e.op \in {"pop", "clear", "erase"} THEN h + 1 ELSE h)
            /\ (s.k = Region /\ (e.op = "push" \/ (e.op = "nest" /\ e.n = 1)) => Len(s.q) < 3 \/ Len(s.q) >= 126)
Spec == Init /\ [][Next]_vars
View_ == <<s, h>>
Shape(x) == <<x.k, x.q, x.c>>
Emit == EmitEdge(<<Shape(s), h>>, lab', <<Shape(s'), h'>>)
=============================================================================
