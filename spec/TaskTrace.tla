----------------------------- MODULE TaskTrace -----------------------------
EXTENDS TaskSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Start
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
Ret(e) == e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op /\ s.pend[e.t].v = e.v
          /\ s' = Returned(s, e.t)
Body(e) == e.k0 = "n" /\ \/ e.op = "awaited" /\ AwOK(s, e.a, e.b) /\ s' = Aw(s, e.a)
                         \/ e.op = "passed" /\ PassOK(s, e.a, e.b) /\ s' = Pass(s, e.a)
                         \/ e.op = "ends" /\ EndOK(s, e.a, e.b) /\ s' = End(s, e.a)
\* nothing runs any more: whatever is not finished has something to wait for, and done is up to date
Quiet(e) == /\ e.k0 = "n" /\ e.op = "quiet" /\ s' = s
            /\ \A k \in 1..NK : ~CanGo(s, k)
            /\ \A t \in Threads : Lin(s, t) = {} /\ (s.pend[t].op # "none" => s.pend[t].ph # 2)
Poll(e) == e.k0 = "n" /\ e.op = "poll" /\ e.b = (IF s.task[s.var[e.t][e.a]].st = 2 THEN 1 ELSE 0) /\ s' = s
Fini(e) == e.k0 = "n" /\ e.op = "fini" /\ e.a = 0 /\ e.b = 0 /\ s' = s
           /\ \A k \in 1..NK : s.task[k].st \in {0, 2} \/ (s.task[k].g # <<>> /\ s.task[k].g[1] = Susp)
Stuck(e) == /\ e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0
            /\ \A i \in 1..Len(e.at) : e.at[i] = 0
            /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Start
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Body(e) \/ Quiet(e) \/ Poll(e) \/ Fini(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : s' \in Lin(s, t)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
