------------------------------ MODULE PoolGen ------------------------------
(* Generates concurrent programs for an asynchronous pool and checks small   *)
(* instances of PoolSpec exhaustively.                                       *)
EXTENDS PoolSpec, GenBase
CONSTANTS Kinds, MaxOps, StepKinds
VARIABLES s, n, nk, ne, nf, lab, ctr
vars == <<s, n, nk, ne, nf, lab, ctr>>
\* nk jobs made, ne events awaited so far, nf: events somebody fires
R(S) == RandomElement({x \in S : ctr >= 0})
Users == 1..NT
EvSteps == IF 10 \in StepKinds /\ ne < NE THEN {10 + ne + 1} ELSE {}
FireSteps(lo) == IF 40 \in StepKinds THEN {40 + e : e \in {x \in (lo + 1)..NE : x \notin nf}} ELSE {}
TimeSteps == IF 20 \in StepKinds THEN {21, 23} ELSE {}
ForkSteps == IF 30 \in StepKinds THEN 30..35 ELSE {}
Turn == IF 1 \in StepKinds THEN {1} ELSE {}
\* programs: one event at most, a fork is followed by a join, an event is fired only after waiting for lower ones
P1 == {<<a>> : a \in Turn \cup EvSteps \cup TimeSteps \cup FireSteps(0)}
P2 == {<<a, b>> : a \in Turn \cup TimeSteps, b \in Turn \cup EvSteps \cup FireSteps(0)}
      \cup {<<a, b>> : a \in EvSteps, b \in Turn \cup TimeSteps \cup FireSteps(ne + 1)}
P3 == {<<a, f, 2>> : a \in Turn \cup EvSteps, f \in ForkSteps}
      \cup {<<f, a, 2>> : a \in Turn \cup EvSteps \cup TimeSteps, f \in ForkSteps}
      \cup {<<f, 2, a>> : a \in Turn \cup EvSteps \cup FireSteps(0), f \in ForkSteps}
      \cup {<<f, a>> : f \in ForkSteps, a \in Turn}
Pad(p) == p \o [i \in 1..(4 - Len(p)) |-> 0]
Mk(t, p) == LET q == Pad(p) IN [op |-> "mk", t |-> t, k |-> nk + 1, p1 |-> q[1], p2 |-> q[2], p3 |-> q[3], p4 |-> q[4]]
Evs(e) == {x \in {e.p1, e.p2, e.p3, e.p4} : x \in 11..19}
Fires(e) == {x - 40 : x \in {y \in {e.p1, e.p2, e.p3, e.p4} : y \in 41..49}}
Args(k, t) ==
    CASE k = "mk" -> IF nk = NJ THEN {} ELSE {Mk(t, p) : p \in P1 \cup P2 \cup P3}
      [] k \in {"blk", "done", "drop"} -> [op : {k}, t : {t}, k : 1..NJ]
      [] k = "sig" -> [op : {k}, t : {t}, e : {x \in 1..NE : x \notin nf}]
      [] k = "close" -> [op : {k}, t : {t}]
DoCall(e) == /\ s' = Called(s, e) /\ n' = [n EXCEPT ![e.t] = IF e.op = "close" THEN MaxOps ELSE @ + 1]
             /\ nk' = (IF e.op = "mk" THEN nk + 1 ELSE nk)
             /\ ne' = (IF e.op = "mk" /\ Evs(e) # {} THEN ne + 1 ELSE ne)
             /\ nf' = nf \cup (IF e.op = "mk" THEN Fires(e) ELSE IF e.op = "sig" THEN {e.e} ELSE {})
             /\ lab' = e /\ ctr' = ctr + 1
Quiet == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<n, nk, ne, nf>>
Step(t) == s' \in Lin(s, t) /\ Quiet
Return(t) == s.pend[t].op # "none" /\ s.pend[t].ph = 2 /\ s' = Returned(s, t) /\ Quiet
\* time: everything that waits for a time may go on (the exhaustive check is about order, not durations)
Now(k) == s.job[k].due
Body(k) == \/ ParkOK(s, k, 0) /\ s' = Park(s, k, 0)
           \/ GoOK(s, k, 1, Now(k)) /\ s' = Go(s, k, 1)
           \/ ForkOK(s, k) /\ s' = Fork(s, k)
           \/ FireOK(s, k) /\ s' = Fire(s, k)
           \/ EndOK(s, k) /\ s' = End(s, k)
           \/ GoneOK(s, k) /\ s' = Gone(s, k)
Run(k) == Body(k) /\ Quiet
Init == s = Start /\ n = [t \in Users |-> 0] /\ nk = 0 /\ ne = 0 /\ nf = {} /\ lab = [op |-> "init"] /\ ctr = 0
Next == \/ \E t \in Users : \/ (n[t] < MaxOps /\ \E k \in Kinds : \E e \in Args(k, t) : Legal(s, e) /\ DoCall(e))
                            \/ Step(t) \/ Return(t)
        \/ \E k \in Jobs : Run(k)
View == <<s, n, nk, ne, nf>>
Spec == Init /\ [][Next]_vars
\* a job runs again only through Go; a job that is over has no steps left; a forked job has a parent
Shape == \A k \in Jobs : /\ s.job[k].st = "end" => s.job[k].prog = <<>>
                         /\ (k > NJ /\ s.job[k].st # "no") => s.job[k - NJ].st # "no"
                         /\ s.phase = 2 => s.job[k].st \in {"no", "gone"} \/ Lost(s, k) \/ s.job[k].st \in {"turn", "event"}
\* with the pool up a job is stuck only if its event, or that of the job it joins, is not fired
Jam == s.phase = 0 /\ (\A t \in Users : Idle(s, t)) /\ (\A k \in Jobs : ~ENABLED Body(k)) =>
       \A k \in Jobs : s.job[k].st \in {"no", "gone", "event"} \/ (s.job[k].st = "join" /\ s.job[Kid(k)].st \notin {"end", "gone"})
Nop == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<s, n, nk, ne, nf>>
Useful(t) == {e \in UNION {Args(k, t) : k \in Kinds} : Legal(s, e)}
RandomCall(t) == \E us \in {Useful(t)} : IF us = {} THEN Nop
                 ELSE \E k \in {R({e.op : e \in us})} : \E e \in {R({x \in us : x.op = k})} : DoCall(e)
Busy == {t \in Users : ~Idle(s, t) /\ (s.pend[t].ph = 2 \/ Lin(s, t) # {})}
Free == {t \in Users : Idle(s, t) /\ n[t] < MaxOps}
Ready == {k \in Jobs : ParkOK(s, k, 0) \/ GoOK(s, k, 1, Now(k)) \/ ForkOK(s, k) \/ FireOK(s, k) \/ EndOK(s, k) \/ GoneOK(s, k)}
Act(k) == IF ParkOK(s, k, 0) THEN Park(s, k, 0) ELSE IF GoOK(s, k, 1, Now(k)) THEN Go(s, k, 1) ELSE IF ForkOK(s, k) THEN Fork(s, k)
          ELSE IF FireOK(s, k) THEN Fire(s, k) ELSE IF EndOK(s, k) THEN End(s, k) ELSE Gone(s, k)
SimNext == \E f \in {Free} : \E b \in {Busy} : \E j \in {Ready} : \E r \in {R(1..4)} :
    IF f # {} /\ (r <= 1 \/ b = {}) THEN \E t \in {R(f)} : RandomCall(t)
    ELSE IF b # {} /\ (r <= 3 \/ j = {}) THEN \E t \in {R(b)} : IF s.pend[t].ph = 2 THEN Return(t) ELSE Step(t)
    ELSE IF j # {} THEN \E k \in {R(j)} : s' = Act(k) /\ Quiet
    ELSE Nop
Emit == EmitEdge(<<s.ev, n, nk>>, lab', <<s'.ev, n', nk'>>)
=============================================================================
