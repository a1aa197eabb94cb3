------------------------------ MODULE FutSpec ------------------------------
(* Flags, promises/futures, spawned functions and Thread objects.            *)
(* prom: promise -> [f: filled, x: value]; hnd: thread -> promise -> handle  *)
(* job: spawned function -> [st: 0 not spawned, 1 spawned, 2 running,        *)
(*   3 ended; x: argument; known: its future was seen ready]                 *)
(* fut: thread -> future variable -> job; thr: thread -> Thread variable     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NP, NJ, NV, NF, Once
Threads == 1..NT
None == [op |-> "none", ph |-> 2, v |-> 0]
Start == [prom |-> [k \in 1..NP |-> [f |-> 0, x |-> 0, own |-> 0, taken |-> 0]],
          hnd |-> [t \in Threads |-> [k \in 1..NP |-> 1]],
          job |-> [k \in 1..NJ |-> [st |-> 0, x |-> 0, known |-> 0, taken |-> 0]],
          fut |-> [t \in Threads |-> [j \in 1..NV |-> 0]],
          thr |-> [t \in Threads |-> [j \in 1..NV |-> 0]],
          fl |-> [f \in 1..NF |-> 0],
          pend |-> [t \in Threads |-> None]]
Idle(s, t) == s.pend[t].op = "none"
SpawnOps == {"spawn", "spawnv", "tmake"}
\* promises in Once hold a value that can be moved out once
Legal(s, e) ==
    /\ Idle(s, e.t)
    /\ CASE e.op \in {"fill"} -> s.prom[e.p].own = 0 /\ s.hnd[e.t][e.p] = 1
         [] e.op = "pblk" -> s.hnd[e.t][e.p] = 1 /\ (e.p \in Once => s.prom[e.p].taken = 0)
         [] e.op \in {"prdy", "pdrop", "pdup"} -> s.hnd[e.t][e.p] = 1
         [] e.op \in {"spawn", "spawnv"} -> s.job[e.k].st = 0 /\ s.fut[e.t][e.j] = 0
         [] e.op = "tmake" -> s.job[e.k].st = 0 /\ s.thr[e.t][e.j] = 0
         [] e.op = "jblk" -> s.fut[e.t][e.j] # 0 /\ s.job[s.fut[e.t][e.j]].taken = 0
         [] e.op \in {"jrdy", "jdrop"} -> s.fut[e.t][e.j] # 0
         [] e.op = "jdup" -> s.fut[e.t][e.j] # 0 /\ s.fut[e.t][e.i] = 0
         [] e.op = "jmove" -> e.i # e.j
         [] e.op \in {"tjoin", "tdetach"} -> s.thr[e.t][e.j] # 0
         [] e.op = "tdrop" -> TRUE
         [] e.op = "tmove" -> e.i # e.j
         [] OTHER -> TRUE
\* what is fixed by the call: values handed over, jobs made
Called(s, e) ==
    LET s1 == [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, v |-> 0]] IN
    CASE e.op = "fill" -> [s1 EXCEPT !.prom[e.p].own = e.t, !.prom[e.p].x = e.x]
      [] e.op = "pblk" -> [s1 EXCEPT !.prom[e.p].taken = 1]
      [] e.op = "jblk" -> [s1 EXCEPT !.job[s.fut[e.t][e.j]].taken = 1]
      [] e.op \in SpawnOps -> [s1 EXCEPT !.job[e.k].st = 1, !.job[e.k].x = e.x]
      [] OTHER -> s1
Fin(s, t, v) == [s EXCEPT !.pend[t].ph = 2, !.pend[t].v = v]
Ended(s, k) == k = 0 \/ s.job[k].st = 3
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE LET e == p.e
             f == IF e.op \in {"jblk", "jrdy"} THEN s.fut[t][e.j] ELSE 0 IN
    CASE e.op = "fsig" -> {Fin([s EXCEPT !.fl[e.f] = 1], t, 0)}
      [] e.op = "fblk" -> IF s.fl[e.f] = 1 THEN {Fin(s, t, 0)} ELSE {}
      [] e.op = "frdy" -> {Fin(s, t, s.fl[e.f])}
      [] e.op = "fill" -> {Fin([s EXCEPT !.prom[e.p].f = 1], t, 0)}
      [] e.op = "pblk" -> IF s.prom[e.p].f = 1 THEN {Fin(s, t, s.prom[e.p].x)} ELSE {}
      [] e.op = "prdy" -> {Fin(s, t, s.prom[e.p].f)}
      [] e.op = "pdrop" -> {Fin([s EXCEPT !.hnd[t][e.p] = 0], t, 0)}
      [] e.op = "pdup" -> {Fin(s, t, 0)}
      [] e.op \in {"spawn", "spawnv"} -> {Fin([s EXCEPT !.fut[t][e.j] = e.k], t, 0)}
      [] e.op = "tmake" -> {Fin([s EXCEPT !.thr[t][e.j] = e.k], t, 0)}
      [] e.op = "jblk" -> IF s.job[f].st = 3 THEN {Fin([s EXCEPT !.job[f].known = 1], t, s.job[f].x + 100)} ELSE {}
      [] e.op = "jrdy" -> (IF s.job[f].known = 0 THEN {Fin(s, t, 0)} ELSE {})
                          \cup (IF s.job[f].st = 3 THEN {Fin([s EXCEPT !.job[f].known = 1], t, 1)} ELSE {})
      [] e.op = "jdrop" -> {Fin([s EXCEPT !.fut[t][e.j] = 0], t, 0)}
      [] e.op = "jdup" -> {Fin([s EXCEPT !.fut[t][e.i] = s.fut[t][e.j]], t, 0)}
      [] e.op = "jmove" -> {Fin([s EXCEPT !.fut[t][e.i] = s.fut[t][e.j], !.fut[t][e.j] = 0], t, 0)}
      [] e.op \in {"tjoin", "tdrop"} -> IF Ended(s, s.thr[t][e.j]) THEN {Fin([s EXCEPT !.thr[t][e.j] = 0], t, 0)} ELSE {}
      [] e.op = "tdetach" -> {Fin([s EXCEPT !.thr[t][e.j] = 0], t, 0)}
      [] e.op = "tmove" -> IF Ended(s, s.thr[t][e.i])
                           THEN {Fin([s EXCEPT !.thr[t][e.i] = s.thr[t][e.j], !.thr[t][e.j] = 0], t, 0)} ELSE {}
Returned(s, t) == [s EXCEPT !.pend[t] = None]
\* a spawned function starts once, with its argument, and ends
RunOK(s, k, x) == s.job[k].st = 1 /\ s.job[k].x = x
Run(s, k) == [s EXCEPT !.job[k].st = 2]
EndOK(s, k) == s.job[k].st = 2
End(s, k) == [s EXCEPT !.job[k].st = 3]
=============================================================================
