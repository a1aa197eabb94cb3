--------------------------- MODULE ReflectDesign ---------------------------
(* The shape of the implementation: lists of members are nested cells that  *)
(* are taken apart head first, objects are bytes, and a member is the bytes *)
(* at its offset. Checked against the specification: walking the cells is   *)
(* walking the sequence, the accumulator turns a list around, counting      *)
(* numbers it, members do not overlap, and a write through one changes the  *)
(* bytes of this member alone.                                              *)
EXTENDS ReflectSpec
CONSTANTS N, T
VARIABLE q
Nil == <<>>
Cons(h, t) == <<h, t>>
RECURSIVE Make(_), Iterate(_), Turn(_, _), Length_(_), Number(_, _), All_(_, _)
Make(s) == IF s = <<>> THEN Nil ELSE Cons(Head(s), Make(Tail(s)))
Iterate(c) == IF c = Nil THEN <<>> ELSE <<c[1]>> \o Iterate(c[2])
Turn(c, acc) == IF c = Nil THEN acc ELSE Turn(c[2], Cons(c[1], acc))
Length_(c) == IF c = Nil THEN 0 ELSE 1 + Length_(c[2])
Number(n, s) == IF s = <<>> THEN Nil ELSE Cons(n, Number(n + 1, Tail(s)))
All_(c, X) == IF c = Nil THEN TRUE ELSE c[1] \in X /\ All_(c[2], X)
Lists == UNION {[1..n -> 0..(T - 1)] : n \in {x \in 0..N : TRUE}}
Init == q \in Lists
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
ListOps == LET c == Make(q) IN
    /\ Iterate(c) = q /\ Iterate(Turn(c, Nil)) = Rev(q) /\ Length_(c) = Len(q)
    /\ Iterate(Number(0, q)) = [i \in 1..Len(q) |-> i - 1]
    /\ \A X \in SUBSET (0..(T - 1)) : All_(c, X) = AllIn(q, X)
Whole(r) == SizeOf(Rec("", r))
Layout == \A r \in Records :
    /\ \A i, j \in 1..Len(Members[r]) : i < j => OffOf(r, i) + SizeOf(Members[r][i]) <= OffOf(r, j)
    /\ \A i \in 1..Len(Members[r]) : OffOf(r, i) + SizeOf(Members[r][i]) <= Whole(r) /\ OffOf(r, i) % AlignOf(Members[r][i]) = 0
\* deep walks: a scalar is visited exactly once if every member on the way is registered; visits nest
Covers == \A r \in Records :
    LET vis == Walk(r, TRUE) flat == Walk(r, FALSE) IN
    /\ Len(flat) = Len(Listed(r))
    /\ \A i, j \in DOMAIN vis : i < j /\ vis[i].f.k # "record" /\ vis[j].f.k # "record"
          => Reach(vis[i].f, vis[i].b) \cap Reach(vis[j].f, vis[j].b) = {}
    /\ \A i \in DOMAIN vis : vis[i].f.k = "record" =>
          Reach(vis[i].f, vis[i].b) = UNION {Reach(vis[j].f, vis[j].b) : j \in {k \in DOMAIN vis :
             k > i /\ vis[k].f.k # "record" /\ vis[k].o >= vis[i].o /\ vis[k].o < vis[i].o + SizeOf(vis[i].f)}}
\* the record as bytes: scalar s of width w at o holds its value in its own bytes
OneWrite == \A r \in Records : \A i \in DOMAIN Walk(r, TRUE) :
    LET vis == Walk(r, TRUE) before == [s \in 1..Scalars(r) |-> 0] after == Wrote(r, before, vis, i, 1) IN
    \A s \in 1..Scalars(r) : (after[s] # 0) = (s \in Reach(vis[i].f, vis[i].b))
=============================================================================
