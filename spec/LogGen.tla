------------------------------ MODULE LogGen ------------------------------
EXTENDS LogSpec, GenBase
CONSTANTS MaxSubs, Texts, Kinds, MaxOps
VARIABLES s, n, got, lab, ctr
vars == <<s, n, got, lab, ctr>>
Users == 1..NT
R(S) == RandomElement({x \in S : ctr >= 0})
NextId == 1 + Cardinality(s.ids)
Args(k, t) ==
    CASE k = "sub" -> IF NextId <= MaxSubs THEN [op : {k}, t : {t}, id : {NextId}, c : 0..2] ELSE {}
      [] k = "unsub" -> [op : {k}, t : {t}, id : {i \in s.subs : i % NT = t % NT}]
      [] k = "log" -> [op : {k}, t : {t}, l : 0..2, k : 0..1, m : Texts]
      [] OTHER -> [op : {k}, t : {t}]
DoCall(e) == s' = Called(s, e) /\ n' = [n EXCEPT ![e.t] = @ + 1] /\ lab' = e /\ ctr' = ctr + 1 /\ got' = got
Quiet == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ n' = n
Go(t) == Lin(s, t) # {} /\ s' \in Lin(s, t) /\ got' = got /\ Quiet
\* a callback runs; got counts what each subscriber received while subscribed
Call(i) == i \in s.todo /\ s' = Delivered(s, i) /\ got' = got + 1 /\ Quiet
Return(t) == s.pend[t].op # "none" /\ s.pend[t].ph = 2 /\ s' = Returned(s, t, Cardinality(s.used)) /\ got' = got /\ Quiet
Init == s = Begin /\ n = [t \in Users |-> 0] /\ lab = [op |-> "init"] /\ ctr = 0 /\ got = 0
Next == \/ \E t \in Users : \/ (n[t] < MaxOps /\ \E k \in Kinds : \E e \in Args(k, t) : Legal(s, e) /\ DoCall(e))
                            \/ Go(t) \/ Return(t)
        \/ \E i \in s.todo : Call(i)
View == <<s, n>>
Spec == Init /\ [][Next]_vars
\* one delivery at a time, to subscribers only; nobody waits for a delivery that cannot end
Whole == /\ s.todo # {} => s.holder # -1 /\ s.pend[s.holder].ph = 1
         /\ s.todo \subseteq s.subs
         /\ (\A t \in Users : s.pend[t].ph = 1 => s.holder = t)
         /\ s.holder # -1 => Lin(s, s.holder) # {} \/ s.todo # {}
NopA == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<s, n, got>>
Useful(t) == {e \in UNION {Args(k, t) : k \in Kinds} : Legal(s, e)}
RandomCall(t) == \E us \in {Useful(t)} : IF us = {} THEN NopA
                 ELSE \E k \in {R({e.op : e \in us})} : \E e \in {R({x \in us : x.op = k})} : DoCall(e)
Busy == {t \in Users : ~Idle(s, t) /\ (s.pend[t].ph = 2 \/ Lin(s, t) # {})}
Free == {t \in Users : Idle(s, t) /\ n[t] < MaxOps}
SimNext == \E f \in {Free} : \E b \in {Busy} :
    IF s.todo # {} /\ R(1..2) = 1 THEN \E i \in {R(s.todo)} : Call(i)
    ELSE IF f # {} /\ (b = {} \/ R(1..3) = 1) THEN \E t \in {R(f)} : RandomCall(t)
    ELSE IF b # {} THEN \E t \in {R(b)} : IF s.pend[t].ph = 2 THEN Return(t) ELSE Go(t)
    ELSE IF s.todo # {} THEN \E i \in {R(s.todo)} : Call(i)
    ELSE NopA
Emit == EmitEdge(<<s.ids, n>>, lab', <<s'.ids, n'>>)
=============================================================================
