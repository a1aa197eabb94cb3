------------------------------ MODULE HeapTrace ------------------------------
EXTENDS HeapSpec, TraceBase
CONSTANT NS
VARIABLES l, s
vars == <<l, s>>
Slots == 1..NS
Init == l = 1 /\ s = [i \in Slots |-> Off]
SeqSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Total(_, _)
Total(t, n) == IF n = 0 THEN 0 ELSE Cardinality(t[n].b) + Total(t, n - 1)
Accounting(e, t) ==
    /\ e.err = 0
    /\ e.live # -1 => e.live = Total(t, NS)
    /\ \A i \in Slots : LET x == e.st[i] IN
        /\ x.on = t[i].on
        /\ SeqSet(x.v) = t[i].b /\ Len(x.v) = Cardinality(t[i].b) /\ x.n = Len(x.v)
        /\ IF t[i].b = {} THEN x.top = -1 ELSE Minimal(t[i].b, x.top)
\* top of an untouched heap must not change
Touched(e) == IF e.op \in {"reset", "end"} THEN Slots
              ELSE IF e.op \in {"clone", "clonea"} THEN {e.d}
              ELSE IF e.op \in {"movec", "movea"} THEN {e.c, e.d} ELSE {e.c}
ReadOnly == {"top", "probe", "reserve", "grow"}
Stable(e) == \A i \in Slots : (i \notin Touched(e) \/ e.op \in ReadOnly) => e.st[i].top = s[i].top
Obs(e, P, B) == [i \in Slots |-> [on |-> P[i], b |-> B[i], top |-> e.st[i].top]]
None == [i \in Slots |-> Off]
Reset(e) == e.op = "reset" /\ e.out = "ok" /\ s' = None /\ Accounting(e, s')
End(e) == e.op = "end" /\ e.out = "ok" /\ s' = None /\ Accounting(e, s') /\ e.blocks = 0
Call(e) == /\ e.op \notin {"reset", "end"} /\ Legal(s, e) /\ e.out = "ok"
           /\ s' = Obs(e, Present(s, e), Bags(s, e))
           /\ Accounting(e, s')
           /\ Stable(e)
           /\ e.op = "top" => e.r = <<s[e.c].top>>
           /\ e.op = "probe" => /\ SeqSet(e.mv) = s[e.c].b /\ Len(e.mv) = Cardinality(s[e.c].b)
                                /\ e.empty = (s[e.c].b = {})
                                /\ e.r = IF s[e.c].b = {} THEN <<>> ELSE <<s[e.c].top>>
Refused(e) == e.op \notin {"reset", "end"} /\ ~Legal(s, e) /\ e.out = "die" /\ UNCHANGED s
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End(e) \/ Call(e) \/ Refused(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
