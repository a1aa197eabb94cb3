------------------------------ MODULE EventGen ------------------------------
(* Generates concurrent programs over events and checks small instances.     *)
EXTENDS EventSpec, GenBase
CONSTANTS Kinds, MaxOps
VARIABLES s, n, lab, ctr
vars == <<s, n, lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
Users == 1..NT
Args(k, t) ==
    CASE k \in {"sig", "rst", "try", "new", "src", "drop", "pw", "pr", "snk", "fill", "room"} -> [op : {k}, t : {t}, j : Slots]
      [] k = "mv" -> [op : {k}, t : {t}, j : Slots, i : Slots]
      [] k = "wait" -> [op : {k}, t : {t}, lo : Slots, hi : Slots]
      [] k = "tmr" -> [op : {k}, t : {t}, ms : {0, 1, 2, 7}]
Call(e) == s' = Called(s, e) /\ n' = [n EXCEPT ![e.t] = @ + 1] /\ lab' = e /\ ctr' = ctr + 1
Quiet == UNCHANGED n /\ lab' = [op |-> "nop"] /\ ctr' = ctr + 1
Step(t) == s' \in Lin(s, t) /\ Quiet
Return(t) == s.pend[t].op # "none" /\ s.pend[t].ph = 2 /\ s' = Returned(s, t) /\ Quiet
Init == s = Start /\ n = [t \in Users |-> 0] /\ lab = [op |-> "init"] /\ ctr = 0
Next == \E t \in Users : (n[t] < MaxOps /\ \E k \in Kinds : \E e \in Args(k, t) : Legal(s, e) /\ Call(e)) \/ Step(t) \/ Return(t)
View == <<s, n>>
Spec == Init /\ [][Next]_vars
\* a slot that is in use does not change under its user; a wait never returns a slot without event
InUse == \A t, u \in Users : t # u /\ ~Idle(s, t) /\ ~Idle(s, u) => Changes(s.pend[t].e) \cap Uses(s.pend[u].e) = {}
WaitOK == \A t \in Users : s.pend[t].op = "wait" /\ s.pend[t].ph = 2 => s.slot[s.pend[t].e.lo + s.pend[t].v].kind # 0
Nop == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<s, n>>
\* simulation: slots are mostly filled, changes are rare
Some(e) == /\ e.op \in {"new", "src", "snk"} => s.slot[e.j].kind = 0 \/ R(1..6) = 1
           /\ e.op \in {"drop", "mv"} => s.slot[e.j].kind # 0
Weight(k) == IF k \in {"wait", "sig"} THEN 1..4 ELSE IF k \in {"drop", "mv", "tmr"} THEN 1..1 ELSE 1..2
Useful(t) == {e \in UNION {Args(k, t) : k \in Kinds} : Legal(s, e) /\ Some(e)}
RandomCall(t) == \E us \in {Useful(t)} : IF us = {} THEN Nop
                 ELSE \E kw \in {R(UNION {{<<e.op, w>> : w \in Weight(e.op)} : e \in us})} :
                      \E e \in {R({x \in us : x.op = kw[1]})} : Call(e)
BusyT == {t \in Users : ~Idle(s, t) /\ (s.pend[t].ph = 2 \/ Lin(s, t) # {})}
Free == {t \in Users : Idle(s, t) /\ n[t] < MaxOps}
SimNext == \E f \in {Free} : \E b \in {BusyT} :
    IF f # {} /\ (b = {} \/ R(1..3) = 1) THEN \E t \in {R(f)} : RandomCall(t)
    ELSE IF b # {} THEN \E t \in {R(b)} : IF s.pend[t].ph = 2 THEN Return(t)
                                          ELSE \E x \in {R(Lin(s, t))} : s' = x /\ Quiet
    ELSE Nop
Emit == EmitEdge(<<s.slot, n>>, lab', <<s'.slot, n'>>)
=============================================================================
