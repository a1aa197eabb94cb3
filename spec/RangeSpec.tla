----------------------------- MODULE RangeSpec -----------------------------
(* Abstract specification of rpp::Range_Allocator (C08). An allocator manages *)
(* the addresses 0..cap-1; the ranges handed out (in the order they were      *)
(* handed out) occupy [off - pad, off + len). Where a request is placed is    *)
(* left open; it may be refused only if no free gap can hold it.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Off == [on |-> FALSE, cap |-> 0, rs |-> <<>>, hw |-> 0, ta |-> 0, tf |-> 0, tas |-> 0, tfs |-> 0]
New(n) == [Off EXCEPT !.on = TRUE, !.cap = n]

AlignUp(x, a) == ((x + a - 1) \div a) * a
Max(a, b) == IF a > b THEN a ELSE b
Start(r) == r.off - r.pad
End(r) == r.off + r.len
Size(r) == r.pad + r.len
RECURSIVE SumSizes(_)
SumSizes(rs) == IF rs = <<>> THEN 0 ELSE Size(Head(rs)) + SumSizes(Tail(rs))
\* maximal free intervals, as pairs <<start, length>>
Gaps(x) == LET P == {0} \cup {End(x.rs[i]) : i \in 1..Len(x.rs)}
               Next(p) == LET Q == {Start(x.rs[i]) : i \in {j \in 1..Len(x.rs) : Start(x.rs[j]) >= p}} \cup {x.cap}
                          IN CHOOSE q \in Q : \A z \in Q : q <= z
           IN {<<p, Next(p) - p>> : p \in {z \in P : Next(z) > z}}
Fit(x, n, a) == \E g \in Gaps(x) : AlignUp(g[1], a) + n <= g[1] + g[2]
Overlap(a, b) == Start(a) < End(b) /\ Start(b) < End(a)
Placed(x, n, a, r) ==
    /\ r.len >= n /\ r.off % a = 0 /\ r.pad >= 0 /\ Start(r) >= 0 /\ End(r) <= x.cap
    /\ \A i \in 1..Len(x.rs) : ~Overlap(r, x.rs[i])
Insert(x, r) == LET y == [x EXCEPT !.rs = Append(@, r), !.ta = @ + 1, !.tas = @ + Size(r)]
                IN [y EXCEPT !.hw = Max(@, SumSizes(y.rs))]
Remove(x, i) == LET r == x.rs[i] IN
    [x EXCEPT !.rs = SubSeq(x.rs, 1, i - 1) \o SubSeq(x.rs, i + 1, Len(x.rs)), !.tf = @ + 1, !.tfs = @ + Size(r)]

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Bucket(n, buckets, bias) == LET k == Log2(n) IN LET j == IF k >= bias THEN k - bias ELSE 0
                            IN IF j < buckets - 1 THEN j ELSE buckets - 1
\* the statistics that must be reported
StatsOf(x, buckets, bias) ==
    LET G == Gaps(x) IN
    [free_size |-> x.cap - SumSizes(x.rs), allocated_size |-> SumSizes(x.rs), free_blocks |-> Cardinality(G),
     allocated_blocks |-> Len(x.rs), high_water |-> x.hw, total_allocs |-> x.ta, total_frees |-> x.tf,
     total_alloc_size |-> x.tas, total_free_size |-> x.tfs, total_capacity |-> x.cap,
     buckets |-> [b \in 1..buckets |-> Cardinality({g \in G : Bucket(g[2], buckets, bias) = b - 1})]]
=============================================================================
