---------------------------- MODULE MpoolCTrace ----------------------------
EXTENDS MpoolCSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Begin
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
\* what is returned for an object: its block, and the block of its inner object, as w * 1000 + v
Ret(e) == e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op
          /\ LET mk == e.op = "mk" IN
             LET v == IF mk THEN e.v % 1000 ELSE e.v IN
             LET w == IF mk THEN e.v \div 1000 ELSE 0 IN
             CanReturn(s, e.t, v, w) /\ s' = Returned(s, e.t, v, w)
Quiet(e) == e.k0 = "n" /\ e.op = "quiet" /\ s' = s /\ \A t \in Threads : Idle(s, t)
Fini(e) == e.k0 = "n" /\ e.op = "fini" /\ s' = s /\ e.a = 0 /\ e.b = 0
Stuck(e) == e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0 /\ (\A i \in 1..Len(e.at) : e.at[i] = 0) /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Begin
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Quiet(e) \/ Fini(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : s' \in Lin(s, t)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
