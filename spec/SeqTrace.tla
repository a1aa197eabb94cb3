------------------------------ MODULE SeqTrace ------------------------------
(* Trace checker for the sequence containers: every recorded call of the    *)
(* real code must be a step of SeqSpec, with the observed contents, results *)
(* and element/storage accounting.                                          *)
EXTENDS SeqSpec, TraceBase
CONSTANT NS
VARIABLES l, s, cap, what, kind

vars == <<l, s, cap, what, kind>>
Slots == 1..NS
Init == /\ l = 1
        /\ s = [i \in Slots |-> Off]
        /\ cap = [i \in Slots |-> 0]
        /\ what = 0
        /\ kind = 0

RECURSIVE Total(_, _)
Total(st, n) == IF n = 0 THEN 0 ELSE Len(st[n].v) + Total(st, n - 1)

\* elements observed = elements expected; nothing leaked, duplicated or relocated bitwise
Accounting(e, t) ==
    /\ e.err = 0
    /\ e.live # -1 => e.live = Total(t, NS)
    /\ \A i \in Slots : /\ e.st[i].on = t[i].on
                        /\ e.st[i].v = t[i].v
                        /\ e.st[i].n = Len(t[i].v)
                        /\ what = 0 => e.st[i].cap >= Len(t[i].v)

Requested(e) == IF e.op = "reserve" THEN e.n ELSE 0

Storage(e, t) ==
    what = 0 =>
        /\ e.op \in {"reserve", "newcap"} => e.st[e.c].cap >= e.n
        /\ \A i \in Slots :
            \* untouched containers stay where they are; touched ones too while capacity suffices
            LET touched == \/ e.op \in {"push", "pushc", "emplace", "pop", "clear", "reserve",
                                        "grow", "resize", "extend", "set", "setit", "setslice",
                                        "fill", "new", "newcap", "make", "init3", "drop"} /\ e.c = i
                           \/ e.op \in {"clone", "clonea"} /\ e.d = i
                           \/ e.op \in {"movec", "movea"} /\ i \in {e.c, e.d}
                inplace == e.op \in {"push", "pushc", "emplace", "pop", "reserve", "resize",
                                     "extend", "set", "setit", "setslice", "fill"} /\ e.c = i
            IN /\ ~touched => e.st[i].same
               /\ inplace /\ cap[i] >= Max(Len(t[i].v), Requested(e)) => e.st[i].same

Probe(e, t) ==
    e.op = "probe" =>
        LET v == s[e.c].v IN
        /\ e.mv = v
        /\ what = 0 => /\ e.full = (Len(v) = cap[e.c])
                       /\ e.empty = (v = <<>>)
                       /\ e.sempty = (v = <<>>)
                       /\ e.bytes = Len(v)
                       /\ e.sbytes = Len(v)
        /\ what \in {0, 2} => e.iv = v /\ e.sv = v /\ e.msv = v /\ e.dv = v
        /\ what = 1 => /\ e.empty = (v = <<>>)
                       /\ e.fl = e.mo
                       /\ \A i \in 1..Len(v) + 1 : e.fl[i] = 0 \* within the reserved capacity
        /\ \A i \in DOMAIN e.xs : e.xs[i] = v \* every other way of reading the contents

Reset(e) ==
    /\ e.op = "reset"
    /\ what' = e.what /\ kind' = e.kind
    /\ s' = [i \in Slots |-> Off]
    /\ cap' = [i \in Slots |-> 0]
    /\ e.out = "ok" /\ e.err = 0 /\ e.live \in {0, -1}

End(e) ==
    /\ e.op = "end"
    /\ s' = [i \in Slots |-> Off]
    /\ cap' = [i \in Slots |-> 0]
    /\ e.out = "ok"
    /\ Accounting(e, s')
    /\ e.blocks = 0 \* all storage went back to the allocator
    /\ UNCHANGED <<what, kind>>

Call(e) ==
    /\ e.op \notin {"reset", "end"}
    /\ Legal(s, e)
    /\ e.out = "ok"
    /\ s' = After(s, e, what = 2, cap[e.c])
    /\ Accounting(e, s')
    /\ Storage(e, s')
    /\ Probe(e, s')
    /\ e.op = "sub" => e.sub_bytes = e.n
    /\ ~(what = 2 /\ e.op = "probe") => e.r = Result(s, e, what = 1)
    /\ cap' = [i \in Slots |-> e.st[i].cap]
    /\ UNCHANGED <<what, kind>>

\* misuse is refused: the process stops with a diagnostic (C23)
Refused(e) ==
    /\ e.op \notin {"reset", "end"}
    /\ ~Legal(s, e)
    /\ e.out = "die"
    /\ UNCHANGED <<s, cap, what, kind>>

Step(e) == Reset(e) \/ End(e) \/ Call(e) \/ Refused(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
