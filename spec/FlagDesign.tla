----------------------------- MODULE FlagDesign -----------------------------
(* Implementation-shaped model of Flag on a futex: block loads the word and, *)
(* while it is 0, enters a futex wait that compares again and sleeps; waits  *)
(* may end spuriously or be interrupted; signal exchanges the word, then     *)
(* wakes every sleeper. Checked: block returns only after a signal started   *)
(* to take effect, and every blocked thread returns once a signal is made.   *)
EXTENDS Integers, FiniteSets
CONSTANTS Waiters, Signallers
VARIABLES word, pc, sleeping, faults
vars == <<word, pc, sleeping, faults>>
Init == word = 0 /\ sleeping = {} /\ faults = 0
        /\ pc = [t \in Waiters \cup Signallers |-> "start"]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Load(t) == pc[t] = "start" /\ Go(t, IF word = 0 THEN "futex" ELSE "ret") /\ UNCHANGED <<word, sleeping, faults>>
Futex(t) == pc[t] = "futex"
            /\ (IF word = 0 THEN Go(t, "asleep") /\ sleeping' = sleeping \cup {t} ELSE Go(t, "start") /\ UNCHANGED sleeping)
            /\ UNCHANGED <<word, faults>>
Woken(t) == pc[t] = "asleep" /\ t \notin sleeping /\ Go(t, "start") /\ UNCHANGED <<word, sleeping, faults>>
Spurious(t) == pc[t] = "asleep" /\ t \in sleeping /\ faults < 2 /\ faults' = faults + 1 /\ sleeping' = sleeping \ {t}
               /\ UNCHANGED <<word, pc>>
Set(t) == pc[t] = "start" /\ word' = 1 /\ Go(t, "wake") /\ UNCHANGED <<sleeping, faults>>
Wake(t) == pc[t] = "wake" /\ sleeping' = {} /\ Go(t, "ret") /\ UNCHANGED <<word, faults>>
Next == (\E t \in Waiters : Load(t) \/ Futex(t) \/ Woken(t) \/ Spurious(t)) \/ (\E t \in Signallers : Set(t) \/ Wake(t))
        \/ ((\A t \in Waiters \cup Signallers : pc[t] = "ret") /\ UNCHANGED vars)
Fair == /\ \A t \in Waiters : WF_vars(Load(t) \/ Futex(t) \/ Woken(t))
        /\ \A t \in Signallers : WF_vars(Set(t) \/ Wake(t))
Spec == Init /\ [][Next]_vars /\ Fair
OnlyAfter == \A t \in Waiters : pc[t] = "ret" => word = 1
AllReturn == \A t \in Waiters : <>(pc[t] = "ret")
=============================================================================
