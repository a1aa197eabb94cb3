------------------------------ MODULE MpoolCGen ------------------------------
(* Generates concurrent programs over Mpool; checks for every interleaving of *)
(* small instances that no block is used twice.                               *)
EXTENDS MpoolCSpec, GenBase
CONSTANTS Kinds, Tys, MaxOps
VARIABLES s, n, lab, ctr
vars == <<s, n, lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
Args(k, t) ==
    CASE k = "mk" -> [op : {k}, t : {t}, j : Vars, ty : Tys, v : {t * 10 + n[t]}]
      [] k = "set" -> [op : {k}, t : {t}, j : Vars, v : {t * 10 + n[t]}]
      [] k \in {"rm", "get", "take"} -> [op : {k}, t : {t}, j : Vars]
      [] k = "give" -> [op : {k}, t : {t}, j : Vars, u : Users]
DoCall(e) == s' = Called(s, e) /\ n' = [n EXCEPT ![e.t] = @ + 1] /\ lab' = e /\ ctr' = ctr + 1
Quiet == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ n' = n
Go(t) == Lin(s, t) # {} /\ s' \in Lin(s, t) /\ Quiet
Ends(t) == \E v \in 0..NB : \E w \in 0..NB : CanReturn(s, t, v, w) /\ s' = Returned(s, t, v, w) /\ Quiet
Return(t) == s.pend[t].op # "none" /\ s.pend[t].ph = 2 /\ Ends(t)
Init == s = Begin /\ n = [t \in Users |-> 0] /\ lab = [op |-> "init"] /\ ctr = 0
Next == \E t \in Users : \/ (n[t] < MaxOps /\ \E k \in Kinds : \E e \in Args(k, t) : Legal(s, e) /\ DoCall(e))
                         \/ Go(t) \/ Return(t)
View == <<s, n>>
Spec == Init /\ [][Next]_vars
Once == Apart(s)
\* spare blocks are not in use
Spares == \A c \in Classes : LET q == AllUse(s, c, NT) IN \A i \in 1..Len(q) : q[i] \notin s.spare[c]
NopA == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<s, n>>
Useful(t) == {e \in UNION {Args(k, t) : k \in Kinds} : Legal(s, e)}
RandomCall(t) == \E us \in {Useful(t)} : IF us = {} THEN NopA
                 ELSE \E k \in {R({e.op : e \in us})} : \E e \in {R({x \in us : x.op = k})} : DoCall(e)
Busy == {t \in Users : ~Idle(s, t)}
Free == {t \in Users : Idle(s, t) /\ n[t] < MaxOps}
SimNext == \E f \in {Free} : \E b \in {Busy} :
    IF f # {} /\ (b = {} \/ R(1..3) = 1) THEN \E t \in {R(f)} : RandomCall(t)
    ELSE IF b # {} THEN \E t \in {R(b)} : IF s.pend[t].ph = 2 THEN Return(t) ELSE Go(t)
    ELSE NopA
Emit == EmitEdge(<<s.var, n>>, lab', <<s'.var, n'>>)
=============================================================================
