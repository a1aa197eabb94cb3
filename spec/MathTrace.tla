------------------------------ MODULE MathTrace -----------------------------
EXTENDS MathSpec, TraceBase
VARIABLE l
vars == <<l>>
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       /\ e.out = "ok"
       /\ IF e.op \in {"reset", "end"} THEN TRUE ELSE Legal(e) /\ Answer(e, e.res)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
