------------------------------ MODULE RcTrace ------------------------------
EXTENDS RcSpec, TraceBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Fresh
RECURSIVE Chain(_, _)
Chain(x, o) == IF o <= 0 THEN <<>> ELSE <<x.obj[o].v>> \o Chain(x, x.obj[o].next)
Seen(e, x) ==
    /\ e.err = 0
    /\ {e.live[i] : i \in 1..Len(e.live)} = AliveSet(x) /\ Len(e.live) = Cardinality(AliveSet(x))
    /\ e.blocks # -1 => e.blocks = Cardinality(AliveSet(x))
    /\ \A c \in Slots : /\ e.slot[c] = x.slot[c]
                        /\ e.chain[c] = Chain(x, x.slot[c])
                        /\ e.refs[c] = IF x.slot[c] > 0 THEN Refs(x, x.slot[c]) ELSE 0
Reset(e) == e.op = "reset" /\ e.out = "ok" /\ s' = Fresh
End(e) == e.op = "end" /\ e.out = "ok" /\ s' = Fresh /\ Seen(e, Fresh) /\ e.net = 0
Call(e) == /\ e.op \notin {"reset", "end"} /\ Legal(s, e) /\ e.out = "ok"
           /\ s' = After(s, e) /\ Seen(e, s') /\ e.died = Died(s, e) /\ e.r = Result(s, e)
Refused(e) == e.op \notin {"reset", "end"} /\ ~Legal(s, e) /\ e.out = "die" /\ s' = s
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End(e) \/ Call(e) \/ Refused(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
