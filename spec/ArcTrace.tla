------------------------------ MODULE ArcTrace ------------------------------
EXTENDS ArcSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Begin(0, 1, 0)
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
Ret(e) == e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op /\ s.pend[e.t].v = e.v
          /\ s' = Returned(s, e.t)
Died(e) == e.k0 = "n" /\ e.op = "die" /\ CanDie(s, e.t, e.a) /\ s.obj[e.a].v = e.b /\ s' = Die(s, e.t, e.a)
\* nothing ever blocks
Quiet(e) == e.k0 = "n" /\ e.op = "quiet" /\ s' = s /\ \A t \in Threads : Idle(s, t)
Fini(e) == e.k0 = "n" /\ e.op = "fini" /\ s' = s /\ e.a = 0 /\ e.b = 0 /\ \A o \in Objs : s.obj[o].st # 1
Stuck(e) == e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0 /\ (\A i \in 1..Len(e.at) : e.at[i] = 0) /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Begin(e.no, e.step, e.chain)
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Died(e) \/ Quiet(e) \/ Fini(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : s' \in Lin(s, t)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
