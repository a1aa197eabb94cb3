------------------------------- MODULE ArcGen -------------------------------
(* Generates concurrent programs over Arc and checks the counting protocol   *)
(* for every interleaving of small instances: the counter equals the number  *)
(* of references, an object dies exactly once, only when none is left.       *)
EXTENDS ArcSpec, GenBase
CONSTANTS Kinds, MaxOps, K0, Step0, Chain0
VARIABLES s, n, nk, lab, ctr
vars == <<s, n, nk, lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
Args(k, t) ==
    CASE k = "mk" -> IF nk = NO THEN {} ELSE [op : {k}, t : {t}, k : {nk + 1}, j : Vars, i : 0..NV]
      [] k \in {"dup", "mv", "from", "next"} -> [op : {k}, t : {t}, j : Vars, i : Vars]
      [] k \in {"clr", "refs", "get", "cow", "take"} -> [op : {k}, t : {t}, j : Vars]
      [] k = "give" -> [op : {k}, t : {t}, j : Vars, u : Users]
DoCall(e) == s' = Called(s, e) /\ n' = [n EXCEPT ![e.t] = @ + 1] /\ nk' = (IF e.op = "mk" THEN nk + 1 ELSE nk) /\ lab' = e /\ ctr' = ctr + 1
Quiet == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<n, nk>>
Go(t) == Lin(s, t) # {} /\ s' \in Lin(s, t) /\ Quiet
Dying(t) == s.pend[t].die # 0 /\ CanDie(s, t, s.pend[t].die) /\ s' = Die(s, t, s.pend[t].die) /\ Quiet
Return(t) == s.pend[t].op # "none" /\ s.pend[t].ph = 2 /\ s' = Returned(s, t) /\ Quiet
Init == s = Begin(K0, Step0, Chain0) /\ n = [t \in Users |-> 0] /\ nk = K0 /\ lab = [op |-> "init"] /\ ctr = 0
Next == \E t \in Users : \/ (n[t] < MaxOps /\ \E k \in Kinds : \E e \in Args(k, t) : Legal(s, e) /\ DoCall(e))
                         \/ Go(t) \/ Dying(t) \/ Return(t)
View == <<s, n, nk>>
Spec == Init /\ [][Next]_vars
Counted == \A o \in Objs : s.obj[o].st = 1 => s.obj[o].rc = Truth(s, o)
DeadFree == \A o \in Objs : s.obj[o].st # 1 => Truth(s, o) = 0
DieOnce == [][\A o \in Objs : s.obj[o].st = 2 => s'.obj[o].st = 2]_vars
NoLoss == \A o \in Objs : s.obj[o].st = 1 /\ s.obj[o].rc = 0 => \E t \in Threads : s.pend[t].die = o
NopA == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<s, n, nk>>
Useful(t) == {e \in UNION {Args(k, t) : k \in Kinds} : Legal(s, e) /\ (e.op \in {"dup", "mv", "clr", "give", "refs"} => Var(s, e) # 0 \/ R(1..8) = 1)}
RandomCall(t) == \E us \in {Useful(t)} : IF us = {} THEN NopA
                 ELSE \E k \in {R({e.op : e \in us})} : \E e \in {R({x \in us : x.op = k})} : DoCall(e)
Busy == {t \in Users : ~Idle(s, t)}
Free == {t \in Users : Idle(s, t) /\ n[t] < MaxOps}
SimNext == \E f \in {Free} : \E b \in {Busy} :
    IF f # {} /\ (b = {} \/ R(1..3) = 1) THEN \E t \in {R(f)} : RandomCall(t)
    ELSE IF b # {} THEN \E t \in {R(b)} : IF s.pend[t].ph = 2 THEN Return(t) ELSE IF s.pend[t].die # 0 THEN Dying(t) ELSE Go(t)
    ELSE NopA
Emit == EmitEdge(<<s.var, n, nk>>, lab', <<s'.var, n', nk'>>)
=============================================================================
