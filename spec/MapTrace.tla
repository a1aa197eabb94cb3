------------------------------ MODULE MapTrace ------------------------------
EXTENDS MapSpec, TraceBase
CONSTANT NS
VARIABLES l, s
vars == <<l, s>>
Slots == 1..NS
None == [i \in Slots |-> Off]
Init == l = 1 /\ s = None
Pairs(ks, vs) == {<<ks[i], vs[i]>> : i \in 1..Len(ks)}
RECURSIVE Total(_, _)
Total(t, n) == IF n = 0 THEN 0 ELSE Cardinality(t[n].f) + Total(t, n - 1)
Accounting(e, t) ==
    /\ e.err = 0
    /\ e.live = e.per * Total(t, NS)
    /\ \A i \in Slots : LET x == e.st[i] IN
        /\ x.on = t[i].on
        /\ Len(x.k) = Len(x.v) /\ Pairs(x.k, x.v) = t[i].f
        /\ Len(x.k) = Cardinality(t[i].f) \* iteration yields each entry once
        /\ x.n = Len(x.k)
Probe(e) == e.op = "probe" => LET f == s[e.c].f IN
    Pairs(e.ks, e.vs) = f /\ Len(e.ks) = Cardinality(f) /\ e.empty = (f = {})
    /\ \A i \in DOMAIN e.xk : /\ Pairs(e.xk[i], e.xv[i]) = f
                             /\ Len(e.xk[i]) = Cardinality(f) /\ Len(e.xv[i]) = Cardinality(f)
Reset(e) == e.op = "reset" /\ e.out = "ok" /\ s' = None /\ Accounting(e, s')
End(e) == e.op = "end" /\ e.out = "ok" /\ s' = None /\ Accounting(e, s') /\ e.blocks = 0
Call(e) == /\ e.op \notin {"reset", "end"} /\ Legal(s, e) /\ e.out = "ok"
           /\ s' = After(s, e)
           /\ Accounting(e, s')
           /\ Probe(e)
           /\ e.r = Result(s, e)
Refused(e) == e.op \notin {"reset", "end"} /\ ~Legal(s, e) /\ e.out = "die" /\ UNCHANGED s
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End(e) \/ Call(e) \/ Refused(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
