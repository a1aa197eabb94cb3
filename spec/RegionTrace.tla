---------------------------- MODULE RegionTrace ----------------------------
EXTENDS RegionSpec, TraceBase
CONSTANT NT
VARIABLES l, s
vars == <<l, s>>
Threads == 1..NT
Empty == [t \in Threads |-> <<>>]
Init == l = 1 /\ s = Empty
\* depth and size of every thread, no live block changed or moved, and overflow memory returned
Observed(e, k) ==
    /\ e.bad = 0
    /\ \A t \in Threads : e.depth[t] = Len(k[t]) /\ e.size[t] = Bytes(k[t])
    /\ e.net >= 0
    /\ (\A t \in Threads : k[t] = <<>>) => e.net = 0
Reset(e) == e.op = "reset" /\ e.out = "ok" /\ s' = Empty /\ Observed(e, s')
End(e) == e.op = "fin" /\ e.out = "ok" /\ s' = Empty /\ Observed(e, s')
Call(e) == e.op \notin {"reset", "fin"} /\ Legal(s, e) /\ e.out = "ok" /\ s' = After(s, e) /\ Observed(e, s')
Refused(e) == e.op \notin {"reset", "fin"} /\ ~Legal(s, e) /\ e.out = "die" /\ UNCHANGED s
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End(e) \/ Call(e) \/ Refused(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
