------------------------------ MODULE VecTrace ------------------------------
EXTENDS VecSpec, TraceBase
VARIABLES l, box
vars == <<l, box>>
Init == l = 1 /\ box = <<>>
Next == l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       /\ e.out = "ok"
       /\ IF e.op \in {"reset", "end"} THEN box' = <<>>
          ELSE /\ e.same = 1 \* operands are as they were
               /\ box' = (IF e.op \in BoxOps THEN Box(e, box) ELSE box)
               /\ Answer(e, e.res, box, box')
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
