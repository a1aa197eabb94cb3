------------------------------ MODULE FutTrace ------------------------------
EXTENDS FutSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Start
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
Ret(e) == e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op /\ s.pend[e.t].v = e.v
          /\ s' = Returned(s, e.t)
Job(e) == e.k0 = "n" /\ ((e.op = "run" /\ RunOK(s, e.a, e.b) /\ s' = Run(s, e.a))
                        \/ (e.op = "end" /\ EndOK(s, e.a) /\ s' = End(s, e.a)))
\* everything destroyed: no payload, no storage left
\* every thread that was started has been joined or detached
Held(e) == e.k0 = "n" /\ e.op = "held" /\ e.a = 0 /\ s' = s
Fini(e) == e.k0 = "n" /\ e.op = "fini" /\ e.a = 0 /\ e.b = 0 /\ (\A t \in Threads : Idle(s, t)) /\ s' = s
Stuck(e) == /\ e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0
            /\ \A t \in Threads : Lin(s, t) = {} /\ (s.pend[t].op # "none" => s.pend[t].ph # 2)
            /\ \A t \in Threads : Idle(s, t) <=> (t > Len(e.at) \/ e.at[t] = 0)
            /\ \A k \in 1..NJ : s.job[k].st \in {0, 3}
            /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Start
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Job(e) \/ Fini(e) \/ Held(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : s' \in Lin(s, t)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
