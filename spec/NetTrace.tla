------------------------------ MODULE NetTrace ------------------------------
EXTENDS NetSpec, TraceBase
VARIABLES l, k, auto, x
vars == <<l, k, auto, x>>
Objs == 1..5
\* x: the foreign sender's pending packets
Init == l = 1 /\ k = [i \in Objs |-> Dead] /\ auto = 0 /\ x = <<>>
XAt == <<1, 50>>
Die(e) == e.out = "die" /\ UNCHANGED <<k, auto, x>>
\* packets to the foreign address
ToX(to, p) == IF to = XAt THEN Append(x, p) ELSE x
SendTo(e, to) ==
    IF k[e.i].st # "live" \/ e.n > Capacity THEN Die(e)
    ELSE LET b == Auto(k, e.i, auto) p == [d |-> Data(e.s, e.n), from |-> SeenAs(b[e.i].at)] IN
         /\ e.out = "ok" /\ e.ret = e.n
         /\ k' = Put(b, to, p) /\ x' = ToX(to, p)
         /\ auto' = (IF k[e.i].at = NoAddr THEN auto + 1 ELSE auto)
         /\ e.fds = Live(k')
Same(e) == e.out = "ok" /\ UNCHANGED <<auto, x>> /\ e.fds = Live(k')
Move(e) == k' = IF e.i = e.j THEN k ELSE [k EXCEPT ![e.i] = k[e.j], ![e.j] = [Dead EXCEPT !.st = "moved"]]
Recv(e) ==
    IF k[e.i].st # "live" THEN Die(e)
    ELSE /\ e.out = "ok"
         /\ IF k[e.i].q = <<>> THEN ~e.ok /\ UNCHANGED k
            ELSE LET p == Head(k[e.i].q) IN
                 /\ e.ok /\ e.len = p.d[2] /\ e.c = Fits(p.d)
                 /\ k' = [k EXCEPT ![e.i].q = Tail(@), ![e.i].last = p.from]
         /\ Same(e)
Event(e) ==
    CASE e.op = "new" -> k' = [k EXCEPT ![e.i] = Fresh] /\ Same(e)
      [] e.op = "del" -> k' = [k EXCEPT ![e.i] = Dead] /\ Same(e)
      [] e.op \in {"move", "movenew"} -> Move(e) /\ Same(e)
      [] e.op = "bind" -> IF k[e.i].st # "live" \/ k[e.i].at # NoAddr \/ Taken(k, <<e.h, e.p>>) THEN Die(e)
                          ELSE k' = [k EXCEPT ![e.i].at = <<e.h, e.p>>] /\ Same(e)
      [] e.op = "send" -> SendTo(e, <<e.h, e.p>>)
      [] e.op = "reply" -> SendTo(e, k[e.i].last)
      [] e.op = "recv" -> Recv(e)
      [] e.op = "xsend" -> k' = Put(k, <<e.h, e.p>>, [d |-> Data(e.s, e.n), from |-> XAt]) /\ Same(e)
      [] e.op = "xrecv" -> /\ UNCHANGED <<k, auto>> /\ e.out = "ok"
                           /\ IF x = <<>> THEN ~e.ok /\ x' = x ELSE e.ok /\ e.c = Head(x).d /\ x' = Tail(x)
      [] e.op = "badaddr" -> Die(e)
      [] e.op = "end" -> e.out = "ok" /\ e.fds = 0 /\ UNCHANGED <<k, auto, x>>
      [] e.op = "reset" -> e.out = "ok" /\ k' = [i \in Objs |-> Dead] /\ auto' = 0 /\ x' = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ Event(Trace[l])
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
