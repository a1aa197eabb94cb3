----------------------------- MODULE FutDesign -----------------------------
(* Generates concurrent programs over promises, spawned functions, Thread    *)
(* objects and flags, and checks small instances of FutSpec exhaustively.    *)
EXTENDS FutSpec, GenBase
CONSTANTS Kinds, MaxOps
VARIABLES s, n, nj, lab, ctr
vars == <<s, n, nj, lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
Args(k, t) ==
    CASE k \in {"fsig", "fblk", "frdy"} -> [op : {k}, t : {t}, f : 1..NF]
      [] k = "fill" -> [op : {k}, t : {t}, p : 1..NP, x : {n[t] * 10 + t}]
      [] k \in {"pblk", "prdy", "pdrop", "pdup"} -> [op : {k}, t : {t}, p : 1..NP]
      [] k \in SpawnOps -> IF nj < NJ THEN [op : {k}, t : {t}, k : {nj + 1}, j : 1..NV, x : {n[t] * 10 + t}] ELSE {}
      [] k \in {"jblk", "jrdy", "jdrop", "tjoin", "tdetach", "tdrop"} -> [op : {k}, t : {t}, j : 1..NV]
      [] k \in {"jdup", "jmove"} -> [op : {k}, t : {t}, j : 1..NV, i : 1..NV]
      [] k = "tmove" -> [op : {k}, t : {t}, j : 1..NV, i : 1..NV, x : 0..1]
DoCall(e) == /\ s' = Called(s, e) /\ n' = [n EXCEPT ![e.t] = @ + 1] /\ nj' = IF e.op \in SpawnOps THEN nj + 1 ELSE nj
             /\ lab' = e /\ ctr' = ctr + 1
Quiet == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<n, nj>>
Step(t) == s' \in Lin(s, t) /\ Quiet
Return(t) == s.pend[t].op # "none" /\ s.pend[t].ph = 2 /\ s' = Returned(s, t) /\ Quiet
RunJob(k) == ((RunOK(s, k, s.job[k].x) /\ s' = Run(s, k)) \/ (EndOK(s, k) /\ s' = End(s, k))) /\ Quiet
Init == s = Start /\ n = [t \in Threads |-> 0] /\ nj = 0 /\ lab = [op |-> "init"] /\ ctr = 0
Next == \/ \E t \in Threads : (n[t] < MaxOps /\ \E k \in Kinds : \E e \in Args(k, t) : Legal(s, e) /\ DoCall(e)) \/ Step(t) \/ Return(t)
        \/ \E k \in 1..NJ : RunJob(k)
View == <<s, n, nj>>
Spec == Init /\ [][Next]_vars
\* a completed block or join implies that what it waited for is done
Order == \A t \in Threads : LET p == s.pend[t] IN p.op # "none" /\ p.ph = 2 =>
    /\ p.op = "pblk" => s.prom[p.e.p].f = 1
    /\ p.op = "fblk" => s.fl[p.e.f] = 1
    /\ p.op = "jblk" => s.job[s.fut[t][p.e.j]].st = 3
Once1 == \A k \in 1..NJ : Cardinality({<<t, j>> \in Threads \X (1..NV) : s.thr[t][j] = k}) <= 1
Nop == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<s, n, nj>>
Useful(t) == {e \in UNION {Args(k, t) : k \in Kinds} :
                /\ Legal(s, e)
                /\ e.op \in {"jmove"} => s.fut[t][e.j] # 0
                /\ e.op \in {"tdrop", "tmove"} => s.thr[t][e.j] # 0}
RandomCall(t) == \E us \in {Useful(t)} : IF us = {} THEN Nop
                 ELSE \E k \in {R({e.op : e \in us})} : \E e \in {R({x \in us : x.op = k})} : DoCall(e)
Busy == {t \in Threads : ~Idle(s, t) /\ (s.pend[t].ph = 2 \/ Lin(s, t) # {})}
Free == {t \in Threads : Idle(s, t) /\ n[t] < MaxOps}
Jobs == {k \in 1..NJ : s.job[k].st \in {1, 2}}
SimNext == \E f \in {Free} : \E b \in {Busy} : \E j \in {Jobs} : \E r \in {R(1..4)} :
    IF f # {} /\ (r <= 1 \/ b = {}) THEN \E t \in {R(f)} : RandomCall(t)
    ELSE IF b # {} /\ (r <= 3 \/ j = {}) THEN \E t \in {R(b)} : IF s.pend[t].ph = 2 THEN Return(t) ELSE Step(t)
    ELSE IF j # {} THEN \E k \in {R(j)} : RunJob(k)
    ELSE Nop
Emit == EmitEdge(<<s.fl, s.prom, n, nj>>, lab', <<s'.fl, s'.prom, n', nj'>>)
=============================================================================
