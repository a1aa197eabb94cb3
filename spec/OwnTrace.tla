----------------------------- MODULE OwnTrace -----------------------------
EXTENDS OwnSpec, TraceBase
CONSTANT NS
VARIABLES l, s, ty, kd
vars == <<l, s, ty, kd>>
Slots == 1..NS
Init == l = 1 /\ s = [i \in Slots |-> Off] /\ ty = 0 /\ kd = 0

\* number of counted objects in a content
WeightOf(t, x) == CASE t = VAR -> IF x.k = 2 THEN 0 ELSE 1
                    [] t = VAR9 -> IF x.k \in {0, 9} THEN 1 ELSE 0
                    [] t = V8 -> IF x.k \in {0, 7} THEN 1 ELSE 0
                    [] t = V9 -> IF x.k \in {0, 8} THEN 1 ELSE 0
                    [] t = VART -> 0
                    [] t = VN -> IF x.k = 3 THEN 0 ELSE 1
                    [] t = FN -> IF x.k \in {1, 3} THEN 1 ELSE 0
                    [] OTHER -> 1
RECURSIVE W(_, _)
W(t, c) == IF c = <<>> THEN 0 ELSE WeightOf(t, Head(c)) + W(t, Tail(c))
Weight(t, c) == IF t = TUPLE THEN (IF c = <<>> THEN 0 ELSE 2) ELSE W(t, c)
RECURSIVE Total(_, _, _)
Total(t, x, n) == IF n = 0 THEN 0 ELSE Weight(t, x[n].c) + Total(t, x, n - 1)

Accounting(e, t, x) ==
    /\ e.err = 0
    /\ e.live # -1 => e.live = Total(t, x, NS)
    /\ \A i \in Slots : e.st[i].on = x[i].on /\ e.st[i].c = Flat(x[i].c)

Reset(e) == e.op = "reset" /\ e.out = "ok" /\ s' = [i \in Slots |-> Off] /\ ty' = e.ty /\ kd' = e.kind
            /\ Accounting(e, e.ty, s')
End(e) == e.op = "end" /\ e.out = "ok" /\ s' = [i \in Slots |-> Off] /\ Accounting(e, ty, s') /\ e.blocks = 0
          /\ UNCHANGED <<ty, kd>>
Call(e) == /\ e.op \notin {"reset", "end"} /\ Legal(ty, s, e) /\ e.out = "ok"
           /\ s' = After(ty, s, e)
           /\ Accounting(e, ty, s')
           /\ e.r = Result(ty, s, e)
           /\ UNCHANGED <<ty, kd>>
Refused(e) == e.op \notin {"reset", "end"} /\ ~Legal(ty, s, e) /\ e.out = "die" /\ UNCHANGED <<s, ty, kd>>

Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End(e) \/ Call(e) \/ Refused(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
