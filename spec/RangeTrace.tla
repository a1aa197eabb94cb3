---------------------------- MODULE RangeTrace ----------------------------
EXTENDS RangeSpec, TraceBase
CONSTANT NS
VARIABLES l, s, bk, bi
vars == <<l, s, bk, bi>>
Slots == 1..NS
Init == l = 1 /\ s = [i \in Slots |-> Off] /\ bk = 1 /\ bi = 0

Observed(e, t, k, b) ==
    \A i \in Slots :
       /\ e.st[i].on = t[i].on
       /\ t[i].on => LET q == StatsOf(t[i], k, b) IN
            /\ \A f \in DOMAIN q : e.st[i][f] = q[f]
            /\ e.st[i].rs = [j \in 1..Len(t[i].rs) |-> <<t[i].rs[j].off, t[i].rs[j].len, t[i].rs[j].pad>>]
Reset(e) == /\ e.op = "reset" /\ e.out = "ok" /\ s' = [i \in Slots |-> Off] /\ bk' = e.bk /\ bi' = e.bi
            /\ Observed(e, s', bk', bi')
End2(e) == e.op = "end" /\ e.out = "ok" /\ s' = [i \in Slots |-> Off] /\ Observed(e, s', bk, bi) /\ e.blocks = 0 /\ e.err = 0
          /\ UNCHANGED <<bk, bi>>
Free(c) == s[c].rs = <<>>
Legal(e) == CASE e.op = "new" -> Free(e.c)
             [] e.op \in {"alloc", "huge", "free"} -> s[e.c].on
             [] e.op = "movec" -> s[e.c].on /\ e.c # e.d /\ Free(e.d)
             [] e.op = "movea" -> s[e.c].on /\ e.c # e.d /\ s[e.d].on /\ Free(e.d)
             [] e.op = "drop" -> s[e.c].on /\ Free(e.c)
             [] e.op = "clear" -> s[e.c].on /\ Free(e.c)
Step(e) ==
    CASE e.op = "new" -> s' = [s EXCEPT ![e.c] = New(e.n)]
      [] e.op = "alloc" ->
            IF e.r = <<>> THEN ~Fit(s[e.c], e.n, e.a) /\ UNCHANGED s
            ELSE LET r == [off |-> e.r[1], len |-> e.r[2], pad |-> e.r[3]] IN
                 Placed(s[e.c], e.n, e.a, r) /\ s' = [s EXCEPT ![e.c] = Insert(@, r)]
      [] e.op = "huge" -> e.r = <<>> /\ UNCHANGED s
      \* a range that was never handed out cannot be freed: the driver then does nothing
      [] e.op = "free" -> IF e.i < Len(s[e.c].rs) THEN e.r = <<1>> /\ s' = [s EXCEPT ![e.c] = Remove(@, e.i + 1)]
                          ELSE e.r = <<>> /\ UNCHANGED s
      [] e.op \in {"movec", "movea"} -> s' = [s EXCEPT ![e.d] = s[e.c], ![e.c] = New(0)]
      [] e.op = "drop" -> s' = [s EXCEPT ![e.c] = Off]
      [] e.op = "clear" -> UNCHANGED s
\* a step the driver skipped because an earlier request was placed differently than in the model
Skip(e) == e.op = "skip" /\ UNCHANGED <<s, bk, bi>>
Call(e) == /\ e.op \notin {"reset", "end", "skip"} /\ Legal(e) /\ e.out = "ok" /\ Step(e)
           /\ Observed(e, s', bk, bi) /\ e.err = 0 /\ UNCHANGED <<bk, bi>>
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN Reset(e) \/ End2(e) \/ Call(e) \/ Skip(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
