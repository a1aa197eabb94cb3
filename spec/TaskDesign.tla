----------------------------- MODULE TaskDesign -----------------------------
(* Implementation-shaped model of one task: the coroutine (co_return stores  *)
(* the value, sets the flag, destroys its locals, then exchanges DONE into   *)
(* the state word) against the owner of the Task, which may await it (load,  *)
(* then compare-and-swap its continuation in), block on the flag, poll, or   *)
(* destroy the Task (exchange ABANDONED). Checked for every interleaving: the *)
(* continuation is resumed exactly once and after completion, the value is   *)
(* read only after it was stored, the frame is freed exactly once and never  *)
(* accessed afterwards, and nothing is left waiting.                         *)
EXTENDS Integers, FiniteSets
CONSTANTS Plans
VARIABLES word, flag, val, fpc, opc, plan, freed, resumed, got, bad
vars == <<word, flag, val, fpc, opc, plan, freed, resumed, got, bad>>
\* word: "start", "done", "gone", "cont"
Init == /\ word = "start" /\ flag = 0 /\ val = 0 /\ fpc = "store" /\ opc = "plan" /\ freed = 0 /\ resumed = 0 /\ got = 0 /\ bad = 0
        /\ plan \in Plans
Touch == bad' = (IF freed > 0 THEN bad + 1 ELSE bad)
\* the finishing coroutine
Store == fpc = "store" /\ val' = 1 /\ fpc' = "signal" /\ Touch /\ UNCHANGED <<word, flag, opc, plan, freed, resumed, got>>
Signal == fpc = "signal" /\ flag' = 1 /\ fpc' = "final" /\ Touch /\ UNCHANGED <<word, val, opc, plan, freed, resumed, got>>
Final == /\ fpc = "final" /\ Touch /\ word' = "done"
         /\ fpc' = (IF word = "gone" THEN "destroy" ELSE IF word = "cont" THEN "resume" ELSE "end")
         /\ UNCHANGED <<flag, val, opc, plan, freed, resumed, got>>
FDestroy == fpc = "destroy" /\ freed' = freed + 1 /\ fpc' = "end" /\ UNCHANGED <<word, flag, val, opc, plan, resumed, got, bad>>
FResume == fpc = "resume" /\ resumed' = resumed + 1 /\ fpc' = "end" /\ opc' = "value" /\ UNCHANGED <<word, flag, val, plan, freed, got, bad>>
\* the owner
Pick == opc = "plan" /\ opc' = (CASE plan = "await" -> "load" [] plan = "block" -> "wait" [] plan = "poll" -> "poll" [] OTHER -> "drop")
        /\ UNCHANGED <<word, flag, val, fpc, plan, freed, resumed, got, bad>>
Load == opc = "load" /\ Touch /\ opc' = (IF word = "done" THEN "value" ELSE "cas") /\ UNCHANGED <<word, flag, val, fpc, plan, freed, resumed, got>>
Cas == opc = "cas" /\ Touch /\ (IF word = "start" THEN word' = "cont" /\ opc' = "suspended" ELSE word' = word /\ opc' = "value")
       /\ UNCHANGED <<flag, val, fpc, plan, freed, resumed, got>>
Wait == opc = "wait" /\ flag = 1 /\ Touch /\ opc' = "value" /\ UNCHANGED <<word, flag, val, fpc, plan, freed, resumed, got>>
Poll == opc = "poll" /\ Touch /\ opc' = (IF word = "done" THEN "value" ELSE "drop") /\ UNCHANGED <<word, flag, val, fpc, plan, freed, resumed, got>>
Value == opc = "value" /\ Touch /\ got' = (IF val = 1 THEN 1 ELSE 2) /\ opc' = "drop" /\ UNCHANGED <<word, flag, val, fpc, plan, freed, resumed>>
Drop == /\ opc = "drop" /\ Touch /\ word' = "gone" /\ opc' = (IF word = "done" THEN "destroy" ELSE "end")
        /\ UNCHANGED <<flag, val, fpc, plan, freed, resumed, got>>
ODestroy == opc = "destroy" /\ freed' = freed + 1 /\ opc' = "end" /\ UNCHANGED <<word, flag, val, fpc, plan, resumed, got, bad>>
Stop == fpc = "end" /\ opc = "end" /\ UNCHANGED vars
Next == Store \/ Signal \/ Final \/ FDestroy \/ FResume \/ Pick \/ Load \/ Cas \/ Wait \/ Poll \/ Value \/ Drop \/ ODestroy \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Safe == bad = 0 /\ freed <= 1 /\ resumed <= 1 /\ got # 2
Ends == <>(fpc = "end" /\ opc = "end" /\ freed = 1)
=============================================================================
