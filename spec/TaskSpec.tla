------------------------------ MODULE TaskSpec ------------------------------
(* Asynchronous tasks. A task awaits its children one after the other, then  *)
(* its gates, and finishes with a value. Gates are opened by any thread; an  *)
(* opened gate lets the task continue, on whatever thread.                   *)
(* task: [st: 0 not made, 1 started, 2 finished; ch: children still to be    *)
(*  awaited; g: gates still to be passed; v: value; known: seen done]        *)
(* var: thread -> variable -> task; gate: gate -> opened                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NK, NV, NGate
Threads == 0..NT
Susp == 99
None == [op |-> "none", ph |-> 2, v |-> 0]
NoTask == [st |-> 0, ch |-> <<>>, g |-> <<>>, v |-> 0, known |-> 0, void |-> 0]
Start == [task |-> [k \in 1..NK |-> NoTask],
          var |-> [t \in Threads |-> [j \in 1..NV |-> 0]],
          gate |-> [g \in 1..NGate |-> 0],
          pend |-> [t \in Threads |-> None]]
Idle(s, t) == s.pend[t].op = "none"
MakeOps == {"mk", "mkv", "aw", "aw2", "then"}
Gates(e) == (IF e.g1 = 0 THEN <<>> ELSE <<e.g1>>) \o (IF e.g2 = 0 THEN <<>> ELSE <<e.g2>>)
V(s, e) == s.var[e.t][e.j]
Legal(s, e) ==
    /\ Idle(s, e.t)
    /\ CASE e.op \in {"mk", "mkv"} -> s.task[e.k].st = 0 /\ s.var[e.t][e.j] = 0
         [] e.op \in {"aw", "then"} -> s.task[e.k].st = 0 /\ V(s, e) # 0
         [] e.op = "aw2" -> s.task[e.k].st = 0 /\ V(s, e) # 0 /\ e.i # e.j /\ s.var[e.t][e.i] # 0
         [] e.op \in {"blk", "done", "drop"} -> V(s, e) # 0
         [] e.op = "res" -> V(s, e) # 0 /\ s.task[V(s, e)].g # <<>> /\ s.task[V(s, e)].ch = <<>> /\ s.task[V(s, e)].g[1] = Susp
         [] e.op = "mv" -> e.i # e.j
         [] e.op \in {"open", "ok"} -> TRUE
Called(s, e) ==
    LET s1 == [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, v |-> 0]] IN
    IF e.op \in MakeOps
    THEN [s1 EXCEPT !.task[e.k] = [st |-> 1, g |-> Gates(e), v |-> IF e.op = "mkv" THEN 0 ELSE e.x, known |-> 0,
                                   void |-> IF e.op = "mkv" THEN 1 ELSE 0,
                                   ch |-> IF e.op = "aw2" THEN <<V(s, e), s.var[e.t][e.i]>>
                                          ELSE IF e.op \in {"aw", "then"} THEN <<V(s, e)>> ELSE <<>>],
                      !.var[e.t] = [j \in 1..NV |-> IF e.op = "aw2" /\ j = e.i THEN 0 ELSE IF j = e.j THEN e.k ELSE s.var[e.t][j]]]
    ELSE IF e.op = "open" THEN [s1 EXCEPT !.gate[e.g] = 1]
    ELSE IF e.op = "res" THEN [s1 EXCEPT !.task[V(s, e)].g = <<0>> \o Tail(@)] \* 0: may go on
    ELSE s1
Fin(s, t, v) == [s EXCEPT !.pend[t].ph = 2, !.pend[t].v = v]
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE LET e == p.e IN
    CASE e.op \in MakeOps \cup {"open", "res"} -> {Fin(s, t, 0)}
      [] e.op = "blk" -> IF s.task[V(s, e)].st = 2 THEN {Fin([s EXCEPT !.var[t][e.j] = 0], t, s.task[V(s, e)].v)} ELSE {}
      [] e.op = "done" -> LET k == V(s, e) IN
                          (IF s.task[k].known = 0 THEN {Fin(s, t, 0)} ELSE {})
                          \cup (IF s.task[k].st = 2 THEN {Fin([s EXCEPT !.task[k].known = 1], t, 1)} ELSE {})
      [] e.op = "ok" -> {Fin(s, t, IF V(s, e) # 0 THEN 1 ELSE 0)}
      [] e.op = "drop" -> {Fin([s EXCEPT !.var[t][e.j] = 0], t, 0)}
      [] e.op = "mv" -> {Fin([s EXCEPT !.var[t][e.i] = s.var[t][e.j], !.var[t][e.j] = 0], t, 0)}
Returned(s, t) == [s EXCEPT !.pend[t] = None]
\* the coroutine goes on after awaiting its next child, which has finished with value v
AwOK(s, k, v) == IF s.task[k].ch = <<>> THEN FALSE ELSE s.task[k].st = 1 /\ s.task[s.task[k].ch[1]].st = 2 /\ s.task[s.task[k].ch[1]].v = v
Aw(s, k) == [s EXCEPT !.task[k].v = @ + s.task[s.task[k].ch[1]].v, !.task[k].ch = Tail(@), !.task[s.task[k].ch[1]].known = 1]
\* ... or after its next gate, which has been opened
PassOK(s, k, g) == IF s.task[k].st # 1 \/ s.task[k].ch # <<>> \/ s.task[k].g = <<>> THEN FALSE
                   ELSE IF g = Susp THEN s.task[k].g[1] = 0 ELSE s.task[k].g[1] = g /\ s.gate[g] = 1
Pass(s, k) == [s EXCEPT !.task[k].g = Tail(@)]
\* ... and ends
EndOK(s, k, v) == s.task[k].st = 1 /\ s.task[k].ch = <<>> /\ s.task[k].g = <<>> /\ s.task[k].v = v
End(s, k) == [s EXCEPT !.task[k].st = 2]
\* a task that has nothing to wait for
CanGo(s, k) == IF s.task[k].st # 1 THEN FALSE
               ELSE IF s.task[k].ch # <<>> THEN s.task[s.task[k].ch[1]].st = 2
               ELSE IF s.task[k].g = <<>> THEN TRUE
               ELSE IF s.task[k].g[1] \in {0, Susp} THEN s.task[k].g[1] = 0
               ELSE s.gate[s.task[k].g[1]] = 1
=============================================================================
