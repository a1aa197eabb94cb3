----------------------------- MODULE MpoolTrace -----------------------------
EXTENDS MpoolSpec, TraceBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Fresh(0)
Seen(e, x) ==
    /\ e.err = 0 /\ e.overlap = 0 /\ e.misaligned = 0
    /\ e.live = Tokens(x, NO) /\ e.blocks = Blocks(x)
    /\ \A o \in Objs : e.obj[o] = IF x.obj[o].on THEN x.obj[o].v ELSE -1
Reset(e) == e.op = "reset" /\ e.out = "ok" /\ s' = Fresh(e.el)
End(e) == e.op = "end" /\ e.out = "ok" /\ s' = Fresh(0) /\ e.err = 0 /\ e.live = 0 /\ e.blocks = 0
Call(e) == /\ e.op \notin {"reset", "end"} /\ Legal(s, e) /\ e.out = "ok"
           /\ s' = After(s, e) /\ Seen(e, s') /\ e.r = Result(s, e)
Refused(e) == e.op \notin {"reset", "end"} /\ ~Legal(s, e) /\ e.out = "die" /\ s' = s
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End(e) \/ Call(e) \/ Refused(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
