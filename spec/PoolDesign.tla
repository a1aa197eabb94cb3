----------------------------- MODULE PoolDesign -----------------------------
(* Implementation-shaped model of the pool: per-worker queues guarded by a   *)
(* mutex and condition, the unlocked look at empty queues when submitting,   *)
(* the event thread with its list of pending events and of events to be      *)
(* registered, and shutdown. Steps under a mutex are atomic; everything else *)
(* interleaves, conditions wake spuriously. Every job takes Turns turns and  *)
(* then, if it has an event, waits for it. The environment fires the events  *)
(* and may destroy the pool at any time.                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, J, E, Turns, Closes, Spurious
VARIABLES q,      \* worker -> queued jobs
          wp,     \* worker -> "check", "wait" (on the condition), "run", "sub", "exit"
          wj,     \* worker -> its job
          look,   \* worker / event thread / user -> index it looks at while submitting
          left,   \* job -> turns it still takes
          jst,    \* job -> "new", "queued", "run", "event", "end", "dead"
          sig,    \* signalled workers
          down, ev0, fired, toadd, pend, ep, ej, up, uj, cp
vars == <<q, wp, wj, look, left, jst, sig, down, ev0, fired, toadd, pend, ep, ej, up, uj, cp>>
Workers == 1..W
Jobs == 1..J
\* job k waits for event k if k <= E
Init == /\ q = [w \in Workers |-> <<>>] /\ wp = [w \in Workers |-> "check"] /\ wj = [w \in Workers |-> 0]
        /\ look = [x \in 0..(W + 1) |-> 1] /\ left = [k \in Jobs |-> Turns] /\ jst = [k \in Jobs |-> "new"] /\ sig = {}
        /\ down = FALSE /\ ev0 = FALSE /\ fired = {} /\ toadd = {} /\ pend = {} /\ ep = "wait" /\ ej = 0
        /\ up = "idle" /\ uj = 0 /\ cp = 0
\* submitting, by x: 0 the user, 1..W a worker, W + 1 the event thread
Push(w, k) == /\ q' = [q EXCEPT ![w] = Append(@, k)] /\ jst' = [jst EXCEPT ![k] = "queued"]
              /\ wp' = [wp EXCEPT ![w] = IF @ = "wait" THEN "check" ELSE @]
Submit(x, k) ==
    \/ look[x] <= W /\ q[look[x]] = <<>> /\ look' = [look EXCEPT ![x] = W + 2] /\ sig' = {<<x, look[x]>>} \cup sig /\ UNCHANGED <<q, jst, wp>>
    \/ look[x] <= W /\ q[look[x]] # <<>> /\ look' = [look EXCEPT ![x] = @ + 1] /\ UNCHANGED <<q, jst, wp, sig>>
    \/ look[x] = W + 1 /\ \E w \in Workers : sig' = {<<x, w>>} \cup sig /\ look' = [look EXCEPT ![x] = W + 2] /\ UNCHANGED <<q, jst, wp>>
Chosen(x) == look[x] = W + 2
Target(x) == CHOOSE w \in Workers : <<x, w>> \in sig
\* the push itself, under the worker's mutex
Done(x, k) == LET w == Target(x) IN Push(w, k) /\ sig' = sig \ {<<x, w>>} /\ look' = [look EXCEPT ![x] = 1]
Rest1 == <<left, down, ev0, fired, toadd, pend, cp>>
\* user: submits the new jobs one by one
UTake == up = "idle" /\ ~down /\ (\E k \in Jobs : jst[k] = "new" /\ uj' = k /\ jst' = [jst EXCEPT ![k] = "run"]) /\ up' = "sub"
         /\ UNCHANGED <<q, wp, wj, look, left, sig, down, ev0, fired, toadd, pend, ep, ej, cp>>
USub == up = "sub" /\ ~Chosen(0) /\ Submit(0, uj) /\ UNCHANGED <<wj, ep, ej, up, uj>> /\ UNCHANGED Rest1
UPush == up = "sub" /\ Chosen(0) /\ Done(0, uj) /\ up' = "idle" /\ uj' = 0 /\ UNCHANGED <<wj, ep, ej>> /\ UNCHANGED Rest1
\* worker w
Check(w) == /\ wp[w] = "check"
            /\ IF q[w] = <<>> /\ ~down THEN wp' = [wp EXCEPT ![w] = "wait"] /\ UNCHANGED <<q, wj, jst>>
               ELSE IF down THEN wp' = [wp EXCEPT ![w] = "exit"] /\ UNCHANGED <<q, wj, jst>>
               ELSE /\ wp' = [wp EXCEPT ![w] = "run"] /\ wj' = [wj EXCEPT ![w] = Head(q[w])] /\ q' = [q EXCEPT ![w] = Tail(@)]
                    /\ jst' = [jst EXCEPT ![Head(q[w])] = "run"]
            /\ UNCHANGED <<look, sig, ep, ej, up, uj>> /\ UNCHANGED Rest1
Wake(w) == Spurious /\ wp[w] = "wait" /\ wp' = [wp EXCEPT ![w] = "check"] /\ UNCHANGED <<q, wj, look, jst, sig, ep, ej, up, uj>> /\ UNCHANGED Rest1
\* the job takes a turn, registers for its event, or ends
RunJob(w) == /\ wp[w] = "run"
             /\ LET k == wj[w] IN
                IF left[k] > 1 THEN left' = [left EXCEPT ![k] = @ - 1] /\ wp' = [wp EXCEPT ![w] = "sub"]
                                    /\ UNCHANGED <<jst, toadd, ev0, wj>>
                ELSE IF left[k] = 1 /\ k <= E
                THEN left' = [left EXCEPT ![k] = 0] /\ toadd' = toadd \cup {k} /\ ev0' = TRUE /\ jst' = [jst EXCEPT ![k] = "event"]
                     /\ wp' = [wp EXCEPT ![w] = "check"] /\ wj' = [wj EXCEPT ![w] = 0]
                ELSE jst' = [jst EXCEPT ![k] = "end"] /\ wp' = [wp EXCEPT ![w] = "check"] /\ wj' = [wj EXCEPT ![w] = 0]
                     /\ UNCHANGED <<left, toadd, ev0>>
             /\ UNCHANGED <<q, look, sig, down, fired, pend, ep, ej, up, uj, cp>>
WSub(w) == wp[w] = "sub" /\ ~Chosen(w) /\ Submit(w, wj[w]) /\ UNCHANGED <<wj, ep, ej, up, uj>> /\ UNCHANGED Rest1
WPush(w) == /\ wp[w] = "sub" /\ Chosen(w)
            /\ LET v == Target(w) IN
               /\ q' = [q EXCEPT ![v] = Append(@, wj[w])] /\ jst' = [jst EXCEPT ![wj[w]] = "queued"]
               /\ wp' = [x \in Workers |-> IF x = w THEN "check" ELSE IF x = v /\ wp[x] = "wait" THEN "check" ELSE wp[x]]
               /\ sig' = sig \ {<<w, v>>} /\ look' = [look EXCEPT ![w] = 1] /\ wj' = [wj EXCEPT ![w] = 0]
            /\ UNCHANGED <<ep, ej, up, uj>> /\ UNCHANGED Rest1
\* event thread: 0 is the wakeup event
EWait == /\ ep = "wait" /\ \/ ev0 /\ ej' = 0
                           \/ \E k \in pend \cap fired : ej' = k
         /\ ep' = "act" /\ UNCHANGED <<q, wp, wj, look, jst, sig, up, uj>> /\ UNCHANGED Rest1
EAct == /\ ep = "act"
        /\ IF ej = 0 THEN IF down THEN ep' = "exit" /\ UNCHANGED <<pend, toadd, ev0, jst>>
                          ELSE pend' = pend \cup toadd /\ toadd' = {} /\ ev0' = FALSE /\ ep' = "wait" /\ UNCHANGED jst
           ELSE pend' = pend \ {ej} /\ ep' = "sub" /\ jst' = [jst EXCEPT ![ej] = "run"] /\ UNCHANGED <<toadd, ev0>>
        /\ UNCHANGED <<q, wp, wj, look, left, sig, down, fired, ej, up, uj, cp>>
ESub == ep = "sub" /\ ~Chosen(W + 1) /\ Submit(W + 1, ej) /\ UNCHANGED <<wj, ep, ej, up, uj>> /\ UNCHANGED Rest1
EPush == ep = "sub" /\ Chosen(W + 1) /\ Done(W + 1, ej) /\ ep' = "wait" /\ ej' = 0
         /\ UNCHANGED <<wj, up, uj>> /\ UNCHANGED Rest1
Fire == \E k \in 1..E : k \notin fired /\ fired' = fired \cup {k}
        /\ UNCHANGED <<q, wp, wj, look, left, jst, sig, down, ev0, toadd, pend, ep, ej, up, uj, cp>>
\* destructor: flag, wake every worker, join them, wake and join the event thread, destroy what is queued
Close0 == Closes /\ cp = 0 /\ up = "idle" /\ down' = TRUE /\ cp' = 1
          /\ UNCHANGED <<q, wp, wj, look, left, jst, sig, ev0, fired, toadd, pend, ep, ej, up, uj>>
CloseSig == cp \in 1..W /\ wp' = [wp EXCEPT ![cp] = IF @ = "wait" THEN "check" ELSE @] /\ cp' = cp + 1
            /\ UNCHANGED <<q, wj, look, left, jst, sig, down, ev0, fired, toadd, pend, ep, ej, up, uj>>
CloseJoin == cp = W + 1 /\ (\A w \in Workers : wp[w] = "exit") /\ ev0' = TRUE /\ cp' = W + 2
             /\ UNCHANGED <<q, wp, wj, look, left, jst, sig, down, fired, toadd, pend, ep, ej, up, uj>>
CloseEnd == /\ cp = W + 2 /\ ep = "exit" /\ cp' = W + 3
            /\ jst' = [k \in Jobs |-> IF jst[k] \in {"queued", "event"} THEN "dead" ELSE jst[k]]
            /\ q' = [w \in Workers |-> <<>>] /\ pend' = {} /\ toadd' = {}
            /\ UNCHANGED <<wp, wj, look, left, sig, down, ev0, fired, ep, ej, up, uj>>
Step == UTake \/ USub \/ UPush \/ (\E w \in Workers : Check(w) \/ Wake(w) \/ RunJob(w) \/ WSub(w) \/ WPush(w))
        \/ EWait \/ EAct \/ ESub \/ EPush \/ Fire \/ Close0 \/ CloseSig \/ CloseJoin \/ CloseEnd
Over == UNCHANGED vars
Next == Step \/ Over
Fair == /\ WF_vars(USub) /\ WF_vars(UPush) /\ WF_vars(UTake) /\ WF_vars(EWait) /\ WF_vars(EAct) /\ WF_vars(ESub) /\ WF_vars(EPush)
        /\ WF_vars(CloseSig) /\ WF_vars(CloseJoin) /\ WF_vars(CloseEnd) /\ WF_vars(Fire)
        /\ SF_vars(EWait /\ ej' # 0)
        /\ \A w \in Workers : WF_vars(Check(w)) /\ WF_vars(RunJob(w)) /\ WF_vars(WSub(w)) /\ WF_vars(WPush(w))
Spec == Init /\ [][Next]_vars /\ Fair
\* every job is in exactly one place
Places(k) == Cardinality({<<w, i>> \in Workers \X (1..J) : i <= Len(q[w]) /\ q[w][i] = k})
             + Cardinality({w \in Workers : wj[w] = k}) + (IF uj = k THEN 1 ELSE 0)
             + (IF ep = "sub" /\ ej = k THEN 1 ELSE 0) + (IF k \in toadd THEN 1 ELSE 0) + (IF k \in pend THEN 1 ELSE 0)
OnePlace == \A k \in Jobs : Places(k) = (IF jst[k] \in {"new", "end", "dead"} THEN 0 ELSE 1)
\* nothing runs after the destructor
Stopped == cp = W + 3 => \A k \in Jobs : jst[k] \in {"new", "end", "dead"}
NoRunDown == [][\A k \in Jobs : jst'[k] = "run" /\ jst[k] = "queued" => ~down]_vars
Completes == ~Closes => <>(\A k \in Jobs : jst[k] = "end")
Terminates == (cp = 1) ~> (cp = W + 3)
=============================================================================
