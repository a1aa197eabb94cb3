----------------------------- MODULE QueueTrace -----------------------------
EXTENDS QueueSpec, TraceBase
CONSTANT NS
VARIABLES l, s
vars == <<l, s>>
Slots == 1..NS
Init == l = 1 /\ s = [i \in Slots |-> Off]

RECURSIVE Total(_, _)
Total(t, n) == IF n = 0 THEN 0 ELSE Len(t[n].v) + Total(t, n - 1)

Accounting(e, t) ==
    /\ e.err = 0
    /\ e.live # -1 => e.live = Total(t, NS)
    /\ \A i \in Slots : e.st[i].on = t[i].on /\ e.st[i].v = t[i].v /\ e.st[i].n = Len(t[i].v)
Probe(e) ==
    e.op = "probe" => LET v == s[e.c].v IN
        e.iv = v /\ e.ivm = v /\ e.mv = v /\ e.empty = (v = <<>>)
        /\ \A i \in DOMAIN e.xs : e.xs[i] = v

Reset(e) == e.op = "reset" /\ e.out = "ok" /\ s' = [i \in Slots |-> Off] /\ Accounting(e, s')
End(e) == e.op = "end" /\ e.out = "ok" /\ s' = [i \in Slots |-> Off] /\ Accounting(e, s') /\ e.blocks = 0
Call(e) == /\ e.op \notin {"reset", "end"} /\ Legal(s, e) /\ e.out = "ok"
           /\ s' = After(s, e)
           /\ Accounting(e, s')
           /\ Probe(e)
           /\ e.r = Result(s, e)
Refused(e) == e.op \notin {"reset", "end"} /\ ~Legal(s, e) /\ e.out = "die" /\ UNCHANGED s

Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End(e) \/ Call(e) \/ Refused(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
