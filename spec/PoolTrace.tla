----------------------------- MODULE PoolTrace -----------------------------
EXTENDS PoolSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Start
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
Ret(e) == e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op /\ s.pend[e.t].v = e.v
          /\ s' = Returned(s, e.t)
Body(e) == e.k0 = "n" /\ \/ e.op = "park" /\ ParkOK(s, e.k, e.now) /\ s' = Park(s, e.k, e.now)
                         \/ e.op = "go" /\ GoOK(s, e.k, e.w, e.now) /\ s' = Go(s, e.k, e.w)
                         \/ e.op = "joins" /\ s.phase = 1 /\ s' = Joins(s)
                         \/ e.op = "size" /\ s.phase = 0 /\ e.n >= 1 /\ e.n = e.thr - 1 /\ s' = s
                         \/ e.op = "fork" /\ ForkOK(s, e.k) /\ s' = Fork(s, e.k)
                         \/ e.op = "fire" /\ FireOK(s, e.k) /\ s' = Fire(s, e.k)
                         \/ e.op = "ends" /\ EndOK(s, e.k) /\ s' = End(s, e.k)
                         \/ e.op = "gone" /\ GoneOK(s, e.k) /\ s' = Gone(s, e.k)
Quiet(e) == /\ e.k0 = "n" /\ e.op = "quiet" /\ s' = s
            /\ s.phase = 0 => AtRest(s, e.now)
            /\ \A t \in Threads : Lin(s, t) = {} /\ (s.pend[t].op # "none" => s.pend[t].ph # 2)
\* after the pool was destroyed: threads still running, live values, blocks, descriptors
Fini(e) == /\ e.k0 = "n" /\ e.op = "fini" /\ s.phase = 2 /\ s' = s /\ e.thr = 0 /\ e.fds = 0
           /\ (\A k \in Jobs : s.job[k].st \in {"no", "gone"} \/ (Lost(s, k) /\ s.job[k].own = 0))
           /\ (\A k \in Jobs : ~Lost(s, k)) => e.live = 0 /\ e.blk = 0
Stuck(e) == /\ e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0
            /\ \A i \in 1..Len(e.at) : e.at[i] = 0
            /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Start
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Body(e) \/ Quiet(e) \/ Fini(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : s' \in Lin(s, t)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
