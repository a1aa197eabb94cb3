------------------------------ MODULE LogTrace ------------------------------
EXTENDS LogSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Begin
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
Ret(e) == /\ e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op
          /\ IF e.op = "sub" THEN e.v \notin s.used ELSE e.v = 0
          /\ s' = Returned(s, e.t, e.v)
\* What the sinks contain in the end is recorded first, so that the order of the deliveries is known: each
\* delivery has to be the next one, and in the end there must be no other.
\* Threads that existed one after the other may have the same identifier, and are shown as e.same tells.
Plan(e) == e.k0 = "n" /\ e.op = "plan" /\ e.so = e.fi /\ s' = [s EXCEPT !.plan = e.so, !.same = e.same]
Shown(x) == <<s.same[x[1] + 1]>> \o SubSeq(x, 2, 5)
Planned(z) == LET n == Len(z.out) IN IF n = Len(s.out) THEN TRUE ELSE IF n > Len(s.plan) THEN FALSE ELSE Shown(z.out[n]) = s.plan[n]
Cb(e) == e.k0 = "n" /\ e.op = "cb" /\ e.ok = 1 /\ Delivers(s, e.id, e.t, e.l, e.k, e.m) /\ s' = Delivered(s, e.id)
\* no operation in progress: callbacks that exist
Quiet(e) == e.k0 = "n" /\ e.op = "quiet" /\ s' = s /\ (\A t \in Threads : Idle(s, t)) /\ e.a = Cardinality(s.subs)
Sinks(e) == e.k0 = "n" /\ e.op = "sinks" /\ s' = s /\ (\A t \in Threads : Idle(s, t)) /\ Len(s.out) = Len(s.plan)
Fini(e) == e.k0 = "n" /\ e.op = "fini" /\ s' = s /\ e.a = 0 /\ e.b = 0
Stuck(e) == e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0 /\ (\A i \in 1..Len(e.at) : e.at[i] = 0) /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Begin
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Cb(e) \/ Quiet(e) \/ Plan(e) \/ Sinks(e) \/ Fini(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : \E z \in Lin(s, t) : Planned(z) /\ s' = z
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
