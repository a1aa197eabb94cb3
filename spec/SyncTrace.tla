----------------------------- MODULE SyncTrace -----------------------------
EXTENDS SyncSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Start
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
Ret(e) == e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op /\ s.pend[e.t].v = e.v
          /\ s' = Returned(s, e.t)
\* accesses to the guarded datum, only by the holder of its mutex
Data(e) == e.k0 = "n" /\ e.op \in {"rd", "put"} /\ Idle(s, e.t) /\ s.own[e.a] = e.t
           /\ IF e.op = "rd" THEN s.cell[e.a] = e.b /\ s' = s ELSE s' = [s EXCEPT !.cell[e.a] = e.b]
\* the end of the execution: exactly the operations that cannot proceed are still blocked
Stuck(e) == /\ e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0
            /\ \A t \in Threads : ~Must(s, t) /\ (s.pend[t].op # "none" => s.pend[t].ph # 2)
            /\ \A t \in Threads : Idle(s, t) <=> (t > Len(e.at) \/ e.at[t] = 0)
            /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Start
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Data(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : s' \in Lin(s, t)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
