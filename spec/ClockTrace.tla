----------------------------- MODULE ClockTrace -----------------------------
EXTENDS ClockSpec, TraceBase
CONSTANT NT
VARIABLES l, th, c
vars == <<l, th, c>>
Slots == 0..NT
Fresh == [t \in Slots |-> Off]
\* c: last reading of the counter, and the first reading with the real time around it
C0 == [last |-> <<0, 0>>, on |-> FALSE, at |-> 0, v |-> 0, hw |-> 0, er |-> {}]
Init == l = 1 /\ th = Fresh /\ c = C0

Places(e, x) == \A t \in Slots : IF x[t].on THEN e.aff[t + 1] = x[t].at ELSE e.aff[t + 1] = <<>>
\* the asking thread is t, and is told who it is
Me(e) == Awake(th, e.t) /\ e.id = th[e.t].id

Reset(e) == e.op = "reset" /\ th' = Started(Fresh, 0, e.id, e.aff[1], e.pri[1]) /\ c' = C0
Start(e) == /\ e.op = "start" /\ ~th[e.t].on /\ e.oid = e.id
            /\ th' = Started(th, e.t, e.id, e.aff[e.t + 1], e.pri[e.t + 1])
            /\ Distinct(th') /\ Places(e, th') /\ UNCHANGED c
Exit(e) == e.op = "exit" /\ Awake(th, e.t) /\ th' = [th EXCEPT ![e.t] = Off] /\ Places(e, th') /\ UNCHANGED c
Sleep(e) == e.op = "sleep" /\ Me(e) /\ th' = Asleep(th, e.t, e.at, e.ms) /\ UNCHANGED c
Woke(e) == e.op = "woke" /\ th[e.t].on /\ th[e.t].sl /\ MayWake(th[e.t], e.at) /\ e.id = th[e.t].id
           /\ th' = Woken(th, e.t) /\ UNCHANGED c
Join(e) == e.op = "join" /\ Awake(th, e.t) /\ UNCHANGED <<th, c>>
Signal(e) == e.op = "signal" /\ th[e.t].on /\ UNCHANGED <<th, c>>
\* v: the counter since its first reading, lo/hi: real time before and after
Read(e) == /\ e.op = "read" /\ Me(e) /\ Le(c.last, e.v) /\ UNCHANGED th
           /\ LET m == Micros(e.v)
                  tol == 2000 + (e.hi - c.at) \div 500
              IN IF ~c.on THEN c' = [c EXCEPT !.last = e.v, !.on = TRUE, !.at = e.lo, !.v = e.hi]
                 ELSE /\ m >= (e.lo - c.v) - tol /\ m <= (e.hi - c.at) + tol
                      /\ c' = [c EXCEPT !.last = e.v]
Pin(e) == e.op = "pin" /\ Me(e) /\ th' = Pinned(th, e.t, e.core) /\ Places(e, th') /\ UNCHANGED c
Prio(e) == e.op = "prio" /\ Me(e) /\ Places(e, th) /\ UNCHANGED c
           /\ (\A u \in Live(th) \ {e.t} : e.pri[u + 1] = th[u].pr)
           /\ th' = [th EXCEPT ![e.t].pr = e.pri[e.t + 1]]
Conv(e) == e.op = "conv" /\ e.s8 = e.n /\ e.ms = 125 * e.n /\ UNCHANGED <<th, c>>
Wall(e) == e.op = "wall" /\ e.lo <= e.v /\ e.v <= e.hi /\ UNCHANGED <<th, c>>
Text(e) == e.op = "text" /\ e.txt = Clock(e.secs, e.off) /\ e.txt2 = Clock(e.more, e.off) /\ UNCHANGED <<th, c>>
\* every code has a text, and a text of its own
Errs(e) == /\ e.op = "errs" /\ UNCHANGED th
           /\ LET er == c.er \cup {<<e.a, e.ta>>, <<e.b, e.tb>>} IN
              (\A p, q \in er : (p[1] = q[1]) = (p[2] = q[2])) /\ c' = [c EXCEPT !.er = er]
Hw(e) == e.op = "hw" /\ e.v >= 1 /\ e.v <= e.most /\ c.hw \in {0, e.v} /\ c' = [c EXCEPT !.hw = e.v] /\ UNCHANGED th
Pause(e) == e.op = "pause" /\ Me(e) /\ UNCHANGED <<th, c>>
End(e) == e.op = "end" /\ UNCHANGED <<th, c>>
\* a core that does not exist is refused
Refused(e) == e.op = "badpin" /\ e.out = "die" /\ UNCHANGED <<th, c>>

Step(e) == \/ /\ e.out = "ok"
              /\ \/ Reset(e) \/ Start(e) \/ Exit(e) \/ Sleep(e) \/ Woke(e) \/ Join(e) \/ Signal(e) \/ Read(e)
                 \/ Pin(e) \/ Prio(e) \/ Conv(e) \/ Wall(e) \/ Text(e) \/ Errs(e) \/ Hw(e) \/ Pause(e) \/ End(e)
           \/ Refused(e)
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
