------------------------------ MODULE AllocCGen ------------------------------
EXTENDS AllocCSpec, GenBase
CONSTANTS Sizes, MaxOps
VARIABLES s, n, lab, ctr
vars == <<s, n, lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
Kinds == {"al", "fr", "give", "take"}
Args(k, t) ==
    CASE k = "al" -> [op : {k}, t : {t}, j : Vars, k : 0..NK, n : Sizes]
      [] k \in {"fr", "take"} -> [op : {k}, t : {t}, j : Vars]
      [] k = "give" -> [op : {k}, t : {t}, j : Vars, u : Users]
DoCall(e) == s' = Called(s, e) /\ n' = [n EXCEPT ![e.t] = @ + 1] /\ lab' = e /\ ctr' = ctr + 1
Quiet == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ n' = n
Go(t) == Lin(s, t) # {} /\ s' \in Lin(s, t) /\ Quiet
Return(t) == s.pend[t].op # "none" /\ s.pend[t].ph = 2 /\ s' = Returned(s, t) /\ Quiet
Init == s = Begin /\ n = [t \in Users |-> 0] /\ lab = [op |-> "init"] /\ ctr = 0
Next == \E t \in Users : \/ (n[t] < MaxOps /\ \E k \in Kinds : \E e \in Args(k, t) : Legal(s, e) /\ DoCall(e))
                         \/ Go(t) \/ Return(t)
View == <<s, n>>
Spec == Init /\ [][Next]_vars
RECURSIVE Held(_, _, _)
Held(k, q, i) == IF i = 0 THEN 0 ELSE (IF q[i].k = k THEN q[i].n ELSE 0) + Held(k, q, i - 1)
RECURSIVE All(_, _)
All(k, t) == IF t = 0 THEN 0 ELSE Held(k, s.var[t], NV) + Held(k, s.box[t], Len(s.box[t])) + All(k, t - 1)
\* the numbers are those of what is held
Exact == \A k \in Names : LET x == s.st[k] IN x.cur = All(k, NT) /\ x.cur = x.as - x.fs /\ x.hi >= x.cur
NopA == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<s, n>>
Useful(t) == {e \in UNION {Args(k, t) : k \in Kinds} : Legal(s, e)}
RandomCall(t) == \E us \in {Useful(t)} : IF us = {} THEN NopA
                 ELSE \E k \in {R({e.op : e \in us})} : \E e \in {R({x \in us : x.op = k})} : DoCall(e)
Busy == {t \in Users : ~Idle(s, t)}
Free == {t \in Users : Idle(s, t) /\ n[t] < MaxOps}
SimNext == \E f \in {Free} : \E b \in {Busy} :
    IF f # {} /\ (b = {} \/ R(1..3) = 1) THEN \E t \in {R(f)} : RandomCall(t)
    ELSE IF b # {} THEN \E t \in {R(b)} : IF s.pend[t].ph = 2 THEN Return(t) ELSE Go(t)
    ELSE NopA
Emit == EmitEdge(<<s.var, n>>, lab', <<s'.var, n'>>)
=============================================================================
