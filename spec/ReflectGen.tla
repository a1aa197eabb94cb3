----------------------------- MODULE ReflectGen ----------------------------
(* Every question about types, lists, literals and limits; for every record  *)
(* every visit written to; and random histories over all records.            *)
EXTENDS ReflectSpec, GenBase
CONSTANTS MaxList
VARIABLES lab, ctr
vars == <<lab, ctr>>
R(T) == RandomElement({z \in T : ctr >= 0})
WalkOp(r, c, rv, deep, w, v) == [op |-> "walk", r |-> r, c |-> c, rv |-> rv, deep |-> deep, w |-> w, v |-> v]
Mutable(r) == {i \in 1..Scalars(r) : ~(r = 11 /\ i = 2) /\ KindsTo(r, Len(Members[r]))[i] # "pad"}
Ops(g) ==
    CASE g = 1 -> {[op |-> "enum", r |-> r, rv |-> rv] : r \in 1..3, rv \in 0..1}
                  \cup {[op |-> "limit", t |-> t, i |-> i] : t \in 1..2, i \in 1..5}
                  \cup {[op |-> "lit", i |-> i, j |-> j] : i \in 0..(Len(Lits) - 1), j \in 0..(Len(Lits) - 1)}
      [] g = 2 -> {[op |-> "type", t |-> t, w |-> w] : t \in 1..19, w \in {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13}}
                  \cup {[op |-> "type", t |-> t, w |-> 0] : t \in 20..22}
      [] g = 3 -> UNION {{[op |-> "list", n |-> n, t1 |-> q[1], t2 |-> q[2], t3 |-> q[3], t4 |-> q[4], t5 |-> q[5]] :
                          q \in [1..5 -> 0..2]} : n \in {MaxList}}
                  \cup UNION {{[op |-> "list", n |-> n, t1 |-> q[1], t2 |-> q[2], t3 |-> q[3], t4 |-> 0, t5 |-> 0] :
                          q \in [1..3 -> 0..2]} : n \in 0..3}
      [] OTHER -> LET r == g - 3 IN
                  {[op |-> "set", r |-> r, i |-> i, v |-> i + 1] : i \in Mutable(r)}
                  \cup {WalkOp(r, c, rv, deep, w, 50 + w) : c \in 0..1, rv \in 0..1, deep \in 0..1, w \in 0..(Len(Walk(r, TRUE)) + 1)}
Groups == 1..(3 + Len(Members))
Init == lab = [op |-> "init"] /\ ctr = 0
Next == IF ctr = 0 THEN ctr' \in Groups /\ lab' = [op |-> "nop"]
        ELSE \E e \in Ops(ctr) : lab' = e /\ UNCHANGED ctr
Spec == Init /\ [][Next]_vars
View_ == ctr
Emit == EmitEdge(ctr, lab', ctr')
SimNext ==
    /\ ctr' = ctr + 1
    /\ \E r \in {R(Records)}, v \in {R(0..100)}, k \in {R(1..3)} :
       \E i \in {R(Mutable(r))}, w \in {R(0..(Len(Walk(r, TRUE)) + 1))}, c \in {R({0, 0, 1})}, rv \in {R(0..1)}, deep \in {R(0..1)} :
       lab' = IF k = 1 THEN [op |-> "set", r |-> r, i |-> i, v |-> v] ELSE WalkOp(r, c, rv, deep, w, v)
SimEmit == EmitEdge(<<ctr>>, lab', <<ctr'>>)
=============================================================================
