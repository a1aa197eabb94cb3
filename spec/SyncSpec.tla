----------------------------- MODULE SyncSpec -----------------------------
(* Mutexes, Lock objects, condition variables, flags and atomic words shared *)
(* by threads. Every operation is called, takes effect in one or two atomic  *)
(* steps (Lin) and returns. A blocked operation is one whose step is not     *)
(* enabled. State s:                                                         *)
(*  own   mutex -> holding thread (0: none)                                  *)
(*  cell  mutex -> value of the datum it guards                              *)
(*  slot  thread -> Lock object -> mutex it must release (0: none)           *)
(*  wq    condition -> waiting threads; wok: waiting threads owed a return   *)
(*  fl    flag -> 0/1; at: atomic word -> value                              *)
(*  pend  thread -> operation in progress (ph 0 called, 1 waiting, 2 done)   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NM, NC, NF, NA, NG
Threads == 1..NT
None == [op |-> "none", ph |-> 2, v |-> 0]
Start == [own |-> [m \in 1..NM |-> 0], cell |-> [m \in 1..NM |-> 0],
          slot |-> [t \in Threads |-> [g \in 1..NG |-> 0]],
          wq |-> [c \in 1..NC |-> {}], wok |-> {}, fl |-> [f \in 1..NF |-> 0],
          at |-> [a \in 1..NA |-> 0], pend |-> [t \in Threads |-> None]]
Idle(s, t) == s.pend[t].op = "none"
InSlot(s, t, m) == \E g \in 1..NG : s.slot[t][g] = m
Holds(s, t, m) == s.own[m] = t
\* what a correct caller may do
Legal(s, e) ==
    /\ Idle(s, e.t)
    /\ CASE e.op \in {"lock", "try"} -> ~Holds(s, e.t, e.m)
         [] e.op = "glock" -> ~Holds(s, e.t, e.m) /\ s.slot[e.t][e.g] = 0
         [] e.op = "unlock" -> Holds(s, e.t, e.m) /\ ~InSlot(s, e.t, e.m)
         [] e.op = "wait" -> Holds(s, e.t, e.m)
         [] e.op \in {"rd", "put"} -> Holds(s, e.t, e.m)
         [] OTHER -> TRUE
Called(s, e) == [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, v |-> 0]]
Fin(s, t, v) == [s EXCEPT !.pend[t].ph = 2, !.pend[t].v = v]
Drop(s, m) == IF m = 0 THEN s ELSE [s EXCEPT !.own[m] = 0]
\* the possible next states when thread t's operation takes its next step
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE LET e == p.e IN
    CASE e.op = "lock" -> IF s.own[e.m] = 0 THEN {Fin([s EXCEPT !.own[e.m] = t], t, 0)} ELSE {}
      [] e.op = "unlock" -> {Fin(Drop(s, e.m), t, 0)}
      [] e.op = "try" -> {IF s.own[e.m] = 0 THEN Fin([s EXCEPT !.own[e.m] = t], t, 1) ELSE Fin(s, t, 0)}
      [] e.op = "glock" -> IF s.own[e.m] = 0 THEN {Fin([s EXCEPT !.own[e.m] = t, !.slot[t][e.g] = e.m], t, 0)} ELSE {}
      [] e.op = "gmove" -> IF e.g = e.h THEN {Fin(s, t, 0)}
                           ELSE {Fin([Drop(s, s.slot[t][e.h]) EXCEPT !.slot[t][e.h] = s.slot[t][e.g], !.slot[t][e.g] = 0], t, 0)}
      [] e.op = "gdrop" -> {Fin([Drop(s, s.slot[t][e.g]) EXCEPT !.slot[t][e.g] = 0], t, 0)}
      [] e.op = "wait" -> IF p.ph = 0 THEN {[s EXCEPT !.own[e.m] = 0, !.wq[e.c] = @ \cup {t}, !.pend[t].ph = 1]}
                          ELSE IF s.own[e.m] = 0
                               THEN {Fin([s EXCEPT !.own[e.m] = t, !.wq[e.c] = @ \ {t}, !.wok = @ \ {t}], t, 0)} ELSE {}
      [] e.op = "signal" -> IF s.wq[e.c] \ s.wok = {} THEN {Fin(s, t, 0)}
                            ELSE {Fin([s EXCEPT !.wok = @ \cup {w}], t, 0) : w \in s.wq[e.c] \ s.wok}
      [] e.op = "bcast" -> {Fin([s EXCEPT !.wok = @ \cup s.wq[e.c]], t, 0)}
      [] e.op = "fsig" -> {Fin([s EXCEPT !.fl[e.f] = 1], t, 0)}
      [] e.op = "fblk" -> IF s.fl[e.f] = 1 THEN {Fin(s, t, 0)} ELSE {}
      [] e.op = "frdy" -> {Fin(s, t, s.fl[e.f])}
      [] e.op = "incr" -> {Fin([s EXCEPT !.at[e.a] = @ + 1], t, s.at[e.a] + 1)}
      [] e.op = "decr" -> {Fin([s EXCEPT !.at[e.a] = @ - 1], t, s.at[e.a] - 1)}
      [] e.op = "xchg" -> {Fin([s EXCEPT !.at[e.a] = e.x], t, s.at[e.a])}
      [] e.op = "cas" -> {Fin([s EXCEPT !.at[e.a] = IF @ = e.x THEN e.y ELSE @], t, s.at[e.a])}
      [] e.op = "load" -> {Fin(s, t, s.at[e.a])}
\* must make progress: spurious wakeups are allowed but not required
Must(s, t) == LET p == s.pend[t] IN
    /\ Lin(s, t) # {}
    /\ p.ph = 1 => t \in s.wok
Returned(s, t) == [s EXCEPT !.pend[t] = None]
=============================================================================
