----------------------------- MODULE EventTrace -----------------------------
EXTENDS EventSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Start
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
Ret(e) == e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op /\ s.pend[e.t].v = e.v
          /\ s' = Returned(s, e.t)
\* threads that are stuck wait for events that are not set
Quiet(e) == /\ e.k0 = "n" /\ e.op = "quiet" /\ s' = s
            /\ \A t \in Threads : Lin(s, t) = {} /\ (s.pend[t].op # "none" => s.pend[t].ph # 2)
\* descriptors that are open belong to events in slots; in the end none is left
Fds(e) == e.k0 = "n" /\ e.op = "fds" /\ s' = s /\ e.a = Cardinality({j \in Slots : s.slot[j].kind # 0})
Fini(e) == e.k0 = "n" /\ e.op = "fini" /\ e.a = 0 /\ e.b = 0 /\ s' = s
Stuck(e) == e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0 /\ (\A i \in 1..Len(e.at) : e.at[i] = 0) /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Start
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Quiet(e) \/ Fds(e) \/ Fini(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : s' \in Lin(s, t)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
