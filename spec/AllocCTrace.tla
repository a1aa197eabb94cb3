---------------------------- MODULE AllocCTrace ----------------------------
EXTENDS AllocCSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Begin
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
Ret(e) == e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op /\ s.pend[e.t].v = e.v
          /\ s' = Returned(s, e.t)
\* no operation in progress: reported count, blocks really in use
Quiet(e) == e.k0 = "n" /\ e.op = "quiet" /\ s' = s /\ e.a = e.b /\ \A t \in Threads : Idle(s, t)
\* one allocator's part of the report
Row(e) == /\ e.k0 = "n" /\ e.op = "row" /\ e.k \in Names \ s.done
          /\ LET x == s.st[e.k] IN x.al > 0 /\ e.al = x.al /\ e.fr = x.fr /\ e.hi = x.hi /\ e.as = x.as /\ e.fs = x.fs /\ e.unb = x.cur
          /\ s' = [s EXCEPT !.done = @ \cup {e.k}]
\* after finalization: reported count, and the blocks really left
Fini(e) == e.k0 = "n" /\ e.op = "fini" /\ s' = s /\ e.a = 0 /\ e.b = 0 /\ LiveCount(s) = 0
           /\ \A k \in Names : (k \in s.done) = (s.st[k].al > 0)
Stuck(e) == e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0 /\ (\A i \in 1..Len(e.at) : e.at[i] = 0) /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Begin
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Quiet(e) \/ Row(e) \/ Fini(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : s' \in Lin(s, t)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
