--------------------------- MODULE RegionDesign ---------------------------
(* Implementation-shaped model of the region allocator: a list of chunks     *)
(* (the first one static), cumulative byte offsets per depth; ending a       *)
(* region gives back bytes chunk by chunk. Checked: live blocks lie inside   *)
(* their chunk and are disjoint, and with no region open only the first,     *)
(* empty chunk is left.                                                      *)
EXTENDS RegionSpec, GenBase
CONSTANTS NT, Sizes, Brands, MaxBlocks, MaxOpen
VARIABLES m, s, lab, ctr
vars == <<m, s, lab, ctr>>
Threads == 1..NT
Hdr == 24
First == 1000
\* m[t] = [ch: chunks [id, size, used], off: offsets (depth 0 first), blk: live blocks [ch, at, n, d], nx]
MInit == [ch |-> <<[id |-> 1, size |-> First, used |-> 0]>>, off |-> <<0>>, blk |-> <<>>, nx |-> 2]
Last(q) == q[Len(q)]
Max(a, b) == IF a > b THEN a ELSE b
DAlloc(x, n) ==
    LET c == Last(x.ch)
        x1 == IF c.size - c.used < n
              THEN [x EXCEPT !.ch = Append(@, [id |-> x.nx, size |-> Max(n + Hdr, 2 * (c.size + Hdr)) - Hdr, used |-> 0]), !.nx = @ + 1]
              ELSE x
        k == Len(x1.ch)
    IN [x1 EXCEPT !.blk = Append(@, [ch |-> x1.ch[k].id, at |-> x1.ch[k].used, n |-> n, d |-> Len(x.off)]),
                  !.ch[k].used = @ + n, !.off[Len(x.off)] = @ + n]
RECURSIVE Give(_, _)
Give(ch, n) == IF n > Last(ch).used THEN Give(SubSeq(ch, 1, Len(ch) - 1), n - Last(ch).used)
               ELSE LET k == Len(ch)
                        u == ch[k].used - n
                    IN IF u = 0 /\ k > 1 THEN SubSeq(ch, 1, k - 1) ELSE [ch EXCEPT ![k].used = u]
DEnd(x) == LET k == Len(x.off) IN
    [x EXCEPT !.ch = Give(@, x.off[k] - x.off[k - 1]), !.off = SubSeq(@, 1, k - 1),
              !.blk = SelectSeq(@, LAMBDA b : b.d < k)]
DStep(t, e) ==
    LET x == t[e.t] IN
    CASE e.op = "begin" -> [t EXCEPT ![e.t].off = Append(@, Last(@))]
      [] e.op = "alloc" -> [t EXCEPT ![e.t] = DAlloc(x, e.n)]
      [] e.op = "end" -> [t EXCEPT ![e.t] = DEnd(x)]
      [] e.op = "quit" -> [t EXCEPT ![e.t] = MInit]
      [] OTHER -> t
Good(x, k) ==
    /\ \A i \in 1..Len(x.blk) : \E c \in 1..Len(x.ch) : x.ch[c].id = x.blk[i].ch /\ x.blk[i].at + x.blk[i].n <= x.ch[c].used
                                                        /\ x.ch[c].used <= x.ch[c].size
    /\ \A i, j \in 1..Len(x.blk) : i # j /\ x.blk[i].ch = x.blk[j].ch /\ x.blk[i].n > 0 /\ x.blk[j].n > 0 =>
            x.blk[i].at + x.blk[i].n <= x.blk[j].at \/ x.blk[j].at + x.blk[j].n <= x.blk[i].at
    /\ Len(x.off) = Len(k) + 1 /\ Last(x.off) = Bytes(k)
    /\ k = <<>> => Len(x.ch) = 1 /\ x.ch[1].used = 0
Refines == \A t \in Threads : Good(m[t], s[t])
RefinesAlways == [][Refines']_vars

Ops == [op : {"begin", "end", "free", "use"}, t : Threads, b : Brands] \cup [op : {"alloc"}, t : Threads, b : Brands, n : Sizes]
       \cup [op : {"quit"}, t : Threads]
Fits(e) == /\ Legal(s, e)
           /\ e.op = "begin" => Len(s[e.t]) < MaxOpen
           /\ e.op = "alloc" => Len(m[e.t].blk) < MaxBlocks
           /\ e.op = "quit" => s[e.t] = <<>>
Do(e) == m' = DStep(m, e) /\ s' = After(s, e) /\ lab' = e /\ ctr' = ctr + 1
Bad(e) == ~Legal(s, e) /\ lab' = [bad |-> 1] @@ e /\ UNCHANGED <<m, s, ctr>>
Init == m = [t \in Threads |-> MInit] /\ s = [t \in Threads |-> <<>>] /\ lab = [op |-> "init"] /\ ctr = 0
Next == \E e \in Ops : (Fits(e) /\ Do(e)) \/ Bad(e)
Spec == Init /\ [][Next]_vars
Shape(x, k) == [t \in Threads |-> <<[i \in 1..Len(x[t].ch) |-> <<x[t].ch[i].size, x[t].ch[i].used>>], x[t].off, [i \in 1..Len(k[t]) |-> k[t][i].b], Len(x[t].blk)>>]
View == Shape(m, s)
Emit == EmitEdge(Shape(m, s), lab', Shape(m', s'))
R(S) == RandomElement({x \in S : ctr >= 0})
Nop == lab' = [op |-> "nop"] /\ UNCHANGED <<m, s, ctr>>
Kinds == {"begin", "begin2", "alloc", "alloc2", "alloc3", "end", "free", "use", "quit"}
RandomOp(k) == LET t == R(Threads)
                   b == IF s[t] # <<>> /\ k \notin {"begin", "begin2"} THEN Top(s[t]).b ELSE R(Brands) IN
    CASE k \in {"begin", "begin2"} -> [op |-> "begin", t |-> t, b |-> b]
      [] k \in {"alloc", "alloc2", "alloc3"} -> [op |-> "alloc", t |-> t, b |-> b, n |-> R(Sizes)]
      [] k = "quit" -> [op |-> k, t |-> t]
      [] OTHER -> [op |-> k, t |-> t, b |-> b]
SimNext == \E k \in {R(Kinds)} : \E e \in {RandomOp(k)} : IF Fits(e) THEN Do(e) ELSE Nop
=============================================================================
