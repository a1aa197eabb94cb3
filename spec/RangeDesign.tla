---------------------------- MODULE RangeDesign ----------------------------
(* Implementation-shaped model of rpp::Range_Allocator: an address-ordered   *)
(* list of blocks with free flags, one LIFO free list per size class, search *)
(* from the class of the request upwards, splitting, and merging with both   *)
(* neighbours on free. Checked to implement RangeSpec.                       *)
EXTENDS RangeSpec, GenBase
CONSTANTS NC, Heaps, Sizes, Aligns, MaxRanges, Buckets, Bias
VARIABLES m, s, lab, ctr
vars == <<m, s, lab, ctr>>
Slots == 1..NC
\* m[c] = [on, cap, bl: address-ordered blocks [id, start, off, size, free], fl: bucket -> seq of ids, ids: handed out ids, nx]
MOff == [on |-> FALSE, cap |-> 0, bl |-> <<>>, fl |-> [b \in 0..(Buckets - 1) |-> <<>>], ids |-> <<>>, nx |-> 1]
MEmpty == [MOff EXCEPT !.on = TRUE]
Idx(n) == Bucket(n, Buckets, Bias)
Pos(x, id) == CHOOSE i \in 1..Len(x.bl) : x.bl[i].id = id
Blk(x, id) == x.bl[Pos(x, id)]
InsertFree(x, id) == LET p == Pos(x, id) IN
    [x EXCEPT !.bl[p].free = TRUE, !.fl[Idx(x.bl[p].size)] = <<id>> \o @]
RemoveFree(x, id) == LET p == Pos(x, id) IN
    [x EXCEPT !.bl[p].free = FALSE, !.fl[Idx(x.bl[p].size)] = SelectSeq(@, LAMBDA j : j # id)]
MNew(n) == InsertFree([MEmpty EXCEPT !.cap = n, !.bl = <<[id |-> 1, start |-> 0, off |-> 0, size |-> n, free |-> FALSE]>>, !.nx = 2], 1)

RECURSIVE Walk(_, _, _)
\* all free ids from bucket k upwards, in search order
Walk(x, k, dummy) == IF k = Buckets THEN <<>> ELSE x.fl[k] \o Walk(x, k + 1, dummy)
PadOf(b, a) == AlignUp(b.start, a) - b.start
Suits(b, n, a) == b.size >= PadOf(b, a) /\ b.size - PadOf(b, a) >= n
Candidates(x, n, a) == SelectSeq(Walk(x, Idx(n), 0), LAMBDA id : Suits(Blk(x, id), n, a))
InsertAt(q, p, v) == SubSeq(q, 1, p) \o <<v>> \o SubSeq(q, p + 1, Len(q))
MAlloc(x, n, a) ==
    LET C == Candidates(x, n, a) IN
    IF C = <<>> THEN x
    ELSE LET id == C[1]
             p == Pos(x, id)
             pad == PadOf(x.bl[p], a)
             x1 == RemoveFree(x, id)
             x2 == [x1 EXCEPT !.bl[p].off = x1.bl[p].start + pad]
             b == x2.bl[p]
             x3 == IF b.size > n + pad
                   THEN LET nb == [id |-> x2.nx, start |-> b.start + n + pad, off |-> 0, size |-> b.size - n - pad, free |-> FALSE]
                            y == [x2 EXCEPT !.bl = InsertAt([@ EXCEPT ![p].size = n + pad], p, nb), !.nx = @ + 1]
                        IN InsertFree(y, nb.id)
                   ELSE x2
         IN [x3 EXCEPT !.ids = Append(@, id)]
Drop(q, p) == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q))
MFree(x, i) ==
    LET id == x.ids[i]
        x0 == [x EXCEPT !.ids = Drop(@, i)]
        p == Pos(x0, id)
        mergeP == p > 1 /\ x0.bl[p - 1].free
        x1 == IF mergeP
              THEN LET y == RemoveFree(x0, x0.bl[p - 1].id)
                   IN [y EXCEPT !.bl = Drop([@ EXCEPT ![p - 1].size = @ + y.bl[p].size], p)]
              ELSE x0
        q == IF mergeP THEN p - 1 ELSE p
        x2 == IF q < Len(x1.bl) /\ x1.bl[q + 1].free
              THEN LET y == RemoveFree(x1, x1.bl[q + 1].id)
                   IN [y EXCEPT !.bl = Drop([@ EXCEPT ![q].size = @ + y.bl[q + 1].size], q + 1)]
              ELSE x1
    IN InsertFree(x2, x2.bl[q].id)

RangeOf(b) == [off |-> b.off, len |-> b.size - (b.off - b.start), pad |-> b.off - b.start]
Got(x, y) == Len(y.ids) > Len(x.ids)
LastR(y) == RangeOf(Blk(y, y.ids[Len(y.ids)]))

Ops == {[op |-> "new", c |-> c, n |-> n] : c \in Slots, n \in Heaps}
  \cup {[op |-> "alloc", c |-> c, n |-> n, a |-> a] : c \in Slots, n \in Sizes, a \in Aligns}
  \cup {[op |-> "huge", c |-> c, n |-> n, a |-> a] : c \in Slots, n \in {0, 7}, a \in Aligns}
  \cup {[op |-> "free", c |-> c, i |-> i] : c \in Slots, i \in 0..(MaxRanges - 1)}
  \cup {[op |-> o, c |-> c, d |-> d] : o \in {"movec", "movea"}, c \in Slots, d \in Slots}
  \cup {[op |-> o, c |-> c] : o \in {"drop", "clear"}, c \in Slots}
Free(c) == s[c].rs = <<>>
Fits(e) == CASE e.op = "new" -> Free(e.c)
             [] e.op = "alloc" -> s[e.c].on /\ Len(s[e.c].rs) < MaxRanges
             [] e.op = "huge" -> s[e.c].on
             [] e.op = "free" -> s[e.c].on /\ e.i < Len(s[e.c].rs)
             [] e.op = "movec" -> s[e.c].on /\ e.c # e.d /\ Free(e.d)
             [] e.op = "movea" -> s[e.c].on /\ e.c # e.d /\ s[e.d].on /\ Free(e.d)
             [] e.op = "drop" -> s[e.c].on /\ Free(e.c)
             [] e.op = "clear" -> s[e.c].on /\ Free(e.c)
Do(e) ==
    /\ lab' = e /\ ctr' = ctr + 1
    /\ CASE e.op = "new" -> m' = [m EXCEPT ![e.c] = MNew(e.n)] /\ s' = [s EXCEPT ![e.c] = New(e.n)]
         [] e.op = "alloc" ->
              LET x == m[e.c]
                  y == MAlloc(x, e.n, e.a) IN
              /\ m' = [m EXCEPT ![e.c] = y]
              /\ s' = IF Got(x, y) THEN [s EXCEPT ![e.c] = Insert(@, LastR(y))] ELSE s
         [] e.op = "free" -> m' = [m EXCEPT ![e.c] = MFree(@, e.i + 1)] /\ s' = [s EXCEPT ![e.c] = Remove(@, e.i + 1)]
         [] e.op \in {"movec", "movea"} ->
              m' = [m EXCEPT ![e.d] = m[e.c], ![e.c] = MEmpty] /\ s' = [s EXCEPT ![e.d] = s[e.c], ![e.c] = New(0)]
         [] e.op = "drop" -> m' = [m EXCEPT ![e.c] = MOff] /\ s' = [s EXCEPT ![e.c] = Off]
         [] OTHER -> UNCHANGED <<m, s>>
Init == m = [i \in Slots |-> MOff] /\ s = [i \in Slots |-> Off] /\ lab = [op |-> "init"] /\ ctr = 0
Next == \E e \in Ops : Fits(e) /\ Do(e)
Spec == Init /\ [][Next]_vars

\* every step is one the specification allows
StepOk == lab'.op = "alloc" =>
    LET c == lab'.c IN
    IF Got(m[c], m'[c]) THEN Placed(s[c], lab'.n, lab'.a, LastR(m'[c])) ELSE ~Fit(s[c], lab'.n, lab'.a)
\* the block list tiles the heap, no two neighbours are free, the free lists hold exactly the free blocks
Tiling(x) ==
    /\ x.bl # <<>> => x.bl[1].start = 0 /\ x.bl[Len(x.bl)].start + x.bl[Len(x.bl)].size = x.cap
    /\ \A i \in 1..(Len(x.bl) - 1) : x.bl[i].start + x.bl[i].size = x.bl[i + 1].start /\ ~(x.bl[i].free /\ x.bl[i + 1].free)
    /\ \A b \in 0..(Buckets - 1) : {x.fl[b][j] : j \in 1..Len(x.fl[b])} =
            {x.bl[i].id : i \in {k \in 1..Len(x.bl) : x.bl[k].free /\ Idx(x.bl[k].size) = b}}
    /\ Cardinality({i \in 1..Len(x.bl) : ~x.bl[i].free}) = Len(x.ids)
Refines == \A c \in Slots :
    /\ m[c].on = s[c].on /\ m[c].cap = s[c].cap
    /\ [i \in 1..Len(m[c].ids) |-> RangeOf(Blk(m[c], m[c].ids[i]))] = s[c].rs
    /\ Tiling(m[c])
    /\ Gaps(s[c]) = {<<m[c].bl[i].start, m[c].bl[i].size>> : i \in {k \in 1..Len(m[c].bl) : m[c].bl[k].free}}
RefinesAlways == [][Refines' /\ StepOk]_vars
Layout(x) == <<x.on, [i \in 1..Len(x.bl) |-> <<x.bl[i].size, x.bl[i].free, IF x.bl[i].free THEN 0 ELSE x.bl[i].off - x.bl[i].start>>],
               [b \in 0..(Buckets - 1) |-> [j \in 1..Len(x.fl[b]) |-> Pos(x, x.fl[b][j])]],
               [i \in 1..Len(x.ids) |-> Pos(x, x.ids[i])]>>
Shape(t) == [c \in Slots |-> Layout(t[c])]
View == Shape(m)
Emit == EmitEdge(Shape(m), lab', Shape(m'))
R(S) == RandomElement({x \in S : ctr >= 0})
Nop == lab' = [op |-> "nop"] /\ UNCHANGED <<m, s, ctr>>
RandomOp(k) == LET c == R(Slots) IN
    CASE k = "new" -> [op |-> k, c |-> c, n |-> R(Heaps)]
      [] k \in {"alloc", "alloc2", "alloc3", "huge"} -> [op |-> IF k = "huge" THEN k ELSE "alloc", c |-> c, n |-> IF k = "huge" THEN R({0, 7}) ELSE R(Sizes), a |-> R(Aligns)]
      [] k \in {"free", "free2"} -> [op |-> "free", c |-> c, i |-> R(0..MaxRanges)]
      [] k \in {"movec", "movea"} -> [op |-> k, c |-> c, d |-> R(Slots)]
      [] OTHER -> [op |-> k, c |-> c]
SimNext == \E k \in {R({"new", "alloc", "alloc2", "alloc3", "huge", "free", "free2", "movec", "movea", "drop", "clear"})} :
              \E e \in {RandomOp(k)} : IF Fits(e) THEN Do(e) ELSE Nop
=============================================================================
