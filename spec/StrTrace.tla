----------------------------- MODULE StrTrace -----------------------------
EXTENDS StrSpec, TraceBase
CONSTANT NS
VARIABLES l, s
vars == <<l, s>>
Slots == 1..NS
Init == l = 1 /\ s = [i \in Slots |-> Off]

Observed(e, t) ==
    /\ e.err = 0
    /\ \A i \in Slots : /\ e.st[i].on = t[i].on /\ e.st[i].b = t[i].b /\ e.st[i].n = Len(t[i].b)
                        /\ e.st[i].cap >= e.st[i].n /\ e.st[i].empty = (t[i].b = <<>>)
Reset(e) == e.op = "reset" /\ e.out = "ok" /\ s' = [i \in Slots |-> Off] /\ Observed(e, s')
End(e) == e.op = "end" /\ e.out = "ok" /\ s' = [i \in Slots |-> Off] /\ Observed(e, s') /\ e.blocks = 0
Call(e) == /\ e.op \notin {"reset", "end"} /\ Legal(s, e) /\ e.out = "ok"
           /\ s' = After(s, e)
           /\ Observed(e, s')
           /\ Answers(s, e, e.r)
           /\ e.op = "path" => PathOk(s[e.c].b, e.suf, e.rem, e.ext)
Refused(e) == e.op \notin {"reset", "end"} /\ ~Legal(s, e) /\ e.out = "die" /\ UNCHANGED s
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End(e) \/ Call(e) \/ Refused(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
