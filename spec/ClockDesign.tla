----------------------------- MODULE ClockDesign -----------------------------
(* Sleeping by the operating system, whose sleeps end early when a signal is *)
(* delivered and tell the remaining time: a sleep is repeated for the        *)
(* remaining time until it ran to its end. The counter is read as seconds    *)
(* and parts and combined. Checked for every interleaving of ticks, signals  *)
(* and wakeups: nobody returns early, everybody returns, the counter does    *)
(* not go backwards and advances with the clock.                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NT, Dur, MaxT, F, Wrap, Repeat
VARIABLES now, ph, want, from, rem, due, sigs
vars == <<now, ph, want, from, rem, due, sigs>>
Threads == 1..NT
\* the operating system's sleep argument may be narrower than the request (Wrap > 0): the known defect
Arg(d) == IF Wrap = 0 THEN d ELSE d % Wrap
Init == /\ now = 0 /\ ph = [t \in Threads |-> "awake"] /\ want = [t \in Threads |-> 0] /\ from = want
        /\ rem = want /\ due = want /\ sigs = 2
Tick == /\ \/ now < MaxT
           \/ (\E t \in Threads : ph[t] = "kernel" /\ due[t] > now) /\ \A t \in Threads : ph[t] # "enter"
        /\ now' = now + 1 /\ UNCHANGED <<ph, want, from, rem, due, sigs>>
Call(t) == /\ ph[t] = "awake" /\ want[t] = 0
           /\ \E d \in Dur : /\ now + d + 1 <= MaxT
                             /\ want' = [want EXCEPT ![t] = d] /\ rem' = [rem EXCEPT ![t] = Arg(d)]
           /\ from' = [from EXCEPT ![t] = now] /\ ph' = [ph EXCEPT ![t] = "enter"]
           /\ UNCHANGED <<now, due, sigs>>
Enter(t) == /\ ph[t] = "enter" /\ ph' = [ph EXCEPT ![t] = "kernel"] /\ due' = [due EXCEPT ![t] = now + rem[t]]
            /\ rem' = [rem EXCEPT ![t] = 0] /\ UNCHANGED <<now, want, from, sigs>>
Signal(t) == /\ ph[t] = "kernel" /\ sigs > 0 /\ now < due[t] /\ sigs' = sigs - 1
             /\ rem' = [rem EXCEPT ![t] = due[t] - now]
             /\ ph' = [ph EXCEPT ![t] = IF Repeat THEN "enter" ELSE "back"]
             /\ due' = [due EXCEPT ![t] = 0] /\ UNCHANGED <<now, want, from>>
Elapse(t) == ph[t] = "kernel" /\ now >= due[t] /\ ph' = [ph EXCEPT ![t] = "back"]
             /\ due' = [due EXCEPT ![t] = 0] /\ UNCHANGED <<now, want, from, rem, sigs>>
\* the counter, read as seconds and parts of the same instant
Counter(n) == ((n \div F) * F) + (n % F)
Next == Tick \/ \E t \in Threads : Call(t) \/ Enter(t) \/ Signal(t) \/ Elapse(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ \A t \in Threads : WF_vars(Enter(t)) /\ WF_vars(Elapse(t))
NeverEarly == \A t \in Threads : ph[t] = "back" => now - from[t] >= want[t]
Forward == Counter(now) = now /\ Counter(now) < Counter(now + 1)
Returns == \A t \in Threads : (ph[t] = "enter") ~> (ph[t] = "back")
=============================================================================
