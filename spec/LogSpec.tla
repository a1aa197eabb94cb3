------------------------------ MODULE LogSpec ------------------------------
(* Abstract specification of the log (C18). A message goes, as one indivisible*)
(* delivery, to every callback subscribed at that moment and to the two       *)
(* sinks (out: what standard output and the log file contain in the end).     *)
(* Deliveries, subscriptions and unsubscriptions exclude each other.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT
Threads == 0..NT
None == [op |-> "none", ph |-> 2, v |-> 0]
Begin == [pend |-> [t \in Threads |-> None], subs |-> {}, used |-> {}, ids |-> {}, ind |-> [t \in Threads |-> 0], holder |-> -1, todo |-> {},
          out |-> <<>>, plan |-> <<>>, same |-> <<>>]
Idle(s, t) == s.pend[t].op = "none"
Legal(s, e) ==
    /\ Idle(s, e.t)
    /\ CASE e.op = "sub" -> e.id \notin s.ids
         [] e.op = "unsub" -> e.id \in s.subs
         [] e.op = "out" -> s.ind[e.t] > 0
         [] e.op \in {"in", "log"} -> TRUE
\* opening and closing an indentation concerns only the thread itself
Called(s, e) == IF e.op = "in" THEN [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 2, v |-> 0], !.ind[e.t] = @ + 1]
                ELSE IF e.op = "out" THEN [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 2, v |-> 0], !.ind[e.t] = @ - 1]
                ELSE [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, v |-> 0], !.ids = IF e.op = "sub" THEN @ \cup {e.id} ELSE @]
Fin(s, t) == [s EXCEPT !.pend[t].ph = 2]
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE LET e == p.e IN
    IF p.ph = 1 THEN (IF s.todo = {} THEN {[Fin(s, t) EXCEPT !.holder = -1]} ELSE {})
    ELSE IF s.holder # -1 THEN {}
    ELSE IF e.op = "sub" THEN {[Fin(s, t) EXCEPT !.subs = @ \cup {e.id}]}
    ELSE IF e.op = "unsub" THEN {[Fin(s, t) EXCEPT !.subs = @ \ {e.id}]}
    ELSE {[s EXCEPT !.holder = t, !.todo = s.subs, !.pend[t].ph = 1, !.out = Append(@, <<t, e.l, s.ind[t], e.k, e.m>>)]}
\* subscriber id is called with thread t, level l, and text m (of kind k)
Delivers(s, id, t, l, k, m) ==
    /\ s.holder = t /\ id \in s.todo
    /\ LET e == s.pend[t].e IN e.l = l /\ e.k = k /\ e.m = m
Delivered(s, id) == [s EXCEPT !.todo = @ \ {id}]
Returned(s, t, v) == [s EXCEPT !.used = IF s.pend[t].op = "sub" THEN @ \cup {v} ELSE @, !.pend[t] = None]
=============================================================================
