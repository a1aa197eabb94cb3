---------------------------- MODULE ReflectTrace ---------------------------
EXTENDS ReflectSpec, TraceBase
VARIABLES l, obj
vars == <<l, obj>>
Start == [r \in Records |-> Zero(r)]
Init == l = 1 /\ obj = Start

Set(e) == /\ e.op = "set" /\ obj' = [obj EXCEPT ![e.r][e.i] = Norm(KindsTo(e.r, Len(Members[e.r]))[e.i], e.v)]
          /\ e.all = obj'[e.r]
Go(e) == /\ e.op = "walk"
         /\ LET vis == Walk(e.r, e.deep = 1)
                w == IF e.c = 1 THEN 0 ELSE e.w
                after == Wrote(e.r, obj[e.r], vis, w, e.v) IN
            /\ e.visits = [i \in DOMAIN vis |-> Shown(vis, i, e.c = 1, obj[e.r], after, w)]
            /\ e.all = after
            /\ obj' = [obj EXCEPT ![e.r] = after]
Enum(e) == e.op = "enum" /\ LET x == Enums[e.r] IN
           e.names = x.names /\ e.vals = x.vals /\ e.deflt = x.deflt /\ e.under = x.under /\ e.len = Len(x.names)
List(e) == e.op = "list" /\ LET q == SubSeq(<<e.t1, e.t2, e.t3, e.t4, e.t5>>, 1, e.n) IN
           /\ e.fwd = q /\ e.again = q /\ e.rev = Rev(q) /\ e.len = e.n
           /\ e.num = [i \in 1..e.n |-> i - 1]
           /\ e.all = [i \in 1..5 |-> IF AllIn(q, <<{0}, {1}, {2}, {0, 1}, {0, 1, 2}>>[i]) THEN 1 ELSE 0]
           /\ e.list
TypeOf(e) == e.op = "type" /\ [name |-> e.name, kind |-> e.kind, length |-> e.length, under |-> e.under] = Type(e.t, e.w)
Lit(e) == e.op = "lit" /\ e.eq = (e.i = e.j) /\ e.text = Lits[e.i + 1]
Lim(e) == e.op = "limit" /\ e.bits = Limit(e.t, e.i)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ e.out = "ok"
           /\ IF e.op = "reset" THEN obj' = Start
              ELSE IF e.op \in {"set", "walk"} THEN Set(e) \/ Go(e)
              ELSE UNCHANGED obj /\ (e.op = "end" \/ Enum(e) \/ List(e) \/ TypeOf(e) \/ Lit(e) \/ Lim(e))
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
