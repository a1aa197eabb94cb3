------------------------------ MODULE RngTrace ------------------------------
(* at: the point each stream is at. known: what was seen to follow from a    *)
(* point and an operation. Seeds start at points -1, -2, ...                 *)
EXTENDS RngSpec, TraceBase
VARIABLES l, at, known, next, dig
vars == <<l, at, known, next, dig>>
Streams == 1..4
Init == l = 1 /\ at = [i \in Streams |-> 0] /\ known = [x \in {} |-> 0] /\ next = 1 /\ dig = [s \in 1..12 |-> <<>>]
\* the operation without the stream it is applied to
Key(e) == <<at[e.i], [x \in DOMAIN e \ {"i", "res", "out", "live", "err"} |-> e[x]]>>
\* the same operation at the same point yields the same and leads to the same
Follows(e) ==
    LET k == Key(e) IN
    IF k \in DOMAIN known THEN e.res = known[k][1] /\ at' = [at EXCEPT ![e.i] = known[k][2]] /\ UNCHANGED <<known, next>>
    ELSE /\ known' = known @@ (k :> <<e.res, next>>)
         /\ at' = [at EXCEPT ![e.i] = next] /\ next' = next + 1
Limbs(v) == Len(v) = 4 /\ \A i \in 1..4 : v[i] \in 0..65535
Drawn(e) == e.op \in {"draw", "integer", "range", "unit", "coin", "shuffle"} /\ UNCHANGED dig /\ Follows(e)
    /\ CASE e.op = "range" -> InRange(<<e.a1, e.a2, e.a3, e.a4>>, e.res, <<e.b1, e.b2, e.b3, e.b4>>)
         \* whether it is below zero, not below one, and which of 4096 parts it falls in
         [] e.op = "unit" -> e.res[1] = 0 /\ e.res[2] = 0 /\ e.res[3] \in 0..4095
         [] e.op = "coin" -> e.res[1] \in 0..1 /\ (e.n = 0 => e.res[1] = 0) /\ (e.n = 16 => e.res[1] = 1)
         [] e.op = "shuffle" -> Len(e.res) = e.n /\ IsPermutation(e.res) /\ e.err = 0 /\ e.live = 0
         [] OTHER -> Limbs(e.res)
Count == 1200
Stat(e) ==
    /\ UNCHANGED <<at, known, next>>
    /\ CASE e.op = "hist" -> Len(e.res) = e.n /\ Even(e.res, Count) /\ UNCHANGED dig
         [] e.op = "uhist" -> Len(e.res) = e.n /\ Even(e.res, Count) /\ UNCHANGED dig
         [] e.op = "phist" -> Len(e.res) = (IF e.n = 2 THEN 2 ELSE IF e.n = 3 THEN 6 ELSE 24) /\ Even(e.res, Count) /\ UNCHANGED dig
         [] e.op = "chist" -> Frequency(e.res[1], Count, e.n) /\ UNCHANGED dig
         [] e.op \in {"neigh", "distinct", "extreme"} -> e.res = <<0>> /\ UNCHANGED dig
         \* the same in every process
         [] e.op = "digest" -> /\ dig[e.s] \in {<<>>, e.res} /\ \A s \in 1..12 : s # e.s => dig[s] # e.res
                               /\ dig' = [dig EXCEPT ![e.s] = e.res]
Move(e) == /\ UNCHANGED <<known, dig>>
           /\ CASE e.op = "seed" -> at' = [at EXCEPT ![e.i] = -e.s] /\ UNCHANGED next
                [] e.op = "copy" -> at' = [at EXCEPT ![e.i] = at[e.j]] /\ UNCHANGED next
                [] e.op = "fresh" -> at' = [at EXCEPT ![e.i] = next] /\ next' = next + 1
                [] e.op = "end" -> UNCHANGED <<at, next>>
                [] OTHER -> FALSE
Reset(e) == e.op = "reset" /\ at' = [i \in Streams |-> -12] /\ known' = [x \in {} |-> 0] /\ next' = 1 /\ UNCHANGED dig
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ e.out = "ok"
           /\ IF e.op = "reset" THEN Reset(e)
              ELSE IF e.op \in {"hist", "uhist", "phist", "chist", "neigh", "distinct", "extreme", "digest"} THEN Stat(e)
              ELSE IF e.op \in {"seed", "copy", "fresh", "end"} THEN Move(e) ELSE Drawn(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
