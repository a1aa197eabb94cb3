----------------------------- MODULE AllocTrace -----------------------------
EXTENDS AllocSpec, TraceBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Fresh
Reset(e) == e.op = "reset" /\ e.out = "ok" /\ s' = Fresh
\* net is the reported count, real the number of blocks in use, mine those of the script's own objects
Call(e) == /\ e.op \notin {"reset", "end"} /\ Legal(s, e) /\ e.out = "ok"
           /\ s' = After(s, e) /\ e.net = e.real /\ e.bad = 0
           /\ e.mine = Cardinality(Live(s'))
\* finalization, observed in a process of its own
End(e) == /\ e.op = "end" /\ e.out = "ok" /\ s' = Fresh
          /\ LET f == Final(s, s.fins)
                 left == Cardinality(Live(f))
             IN /\ {e.rows[i] : i \in 1..Len(e.rows)} = Rows(f) /\ Len(e.rows) = Cardinality(Rows(f))
                /\ e.fins = Len(s.fins)
                /\ e.rsize = Sum(s.reg) /\ e.rdepth = Len(s.reg)
                \* what was reported and what was really left; a busy subscriber makes the accounting itself use memory afterwards
                /\ IF s.busy = 0 THEN e.net = e.real ELSE e.net <= e.real
                /\ e.rc = (IF e.net # 0 THEN 1 ELSE 0)
                /\ IF s.sub \/ s.reg # <<>> THEN e.net >= left ELSE e.net = left
                /\ e.again = 0
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End(e) \/ Call(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
