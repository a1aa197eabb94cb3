----------------------------- MODULE MisuseTrace ----------------------------
(* The event of a request that ended the process tells how many fatal        *)
(* messages each sink got and whether the object was changed before.         *)
EXTENDS MisuseSpec, TraceBase
VARIABLES l, s, subs
vars == <<l, s, subs>>
Init == l = 1 /\ s = None /\ subs = 0
Ended(e) == /\ e.out = "die" \/ (e.out = "exit" /\ e.status # 0)
            /\ e.fout >= 1 /\ e.flog >= 1
            /\ Len(e.fcb) >= subs /\ \A i \in 1..subs : e.fcb[i] >= 1
            /\ e.changed # 1 /\ e.err = 0
            /\ UNCHANGED <<s, subs>>
Next == l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "reset" THEN e.out = "ok" /\ s' = None /\ subs' = e.subs
       ELSE IF e.op = "end" THEN e.out = "ok" /\ e.fout = 0 /\ UNCHANGED <<s, subs>>
       ELSE /\ Applies(s, e)
            /\ IF Correct(s, e) THEN e.out = "ok" /\ e.res = Yields(s, e) /\ s' = Spent(s, e) /\ UNCHANGED subs
               ELSE Ended(e)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
