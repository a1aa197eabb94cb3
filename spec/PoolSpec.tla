------------------------------ MODULE PoolSpec ------------------------------
(* An asynchronous pool and the jobs (coroutines) that run on it. A job runs *)
(* on the thread that made it until it first waits: for a turn on the pool,  *)
(* for an event, for a time, or for the job it forked. It is then resumed    *)
(* exactly once, when what it waits for has happened, on a thread of the     *)
(* pool. Destroying the pool stops it; jobs waiting for a turn are destroyed.*)
(* Steps: 1 turn, 2 join the forked job, 10+e wait for event e,              *)
(* 20+m wait m milliseconds, 30+v fork a job that runs Child(v), 40+e fire e *)
(* Job states: "no", "run", "turn", "event", "time", "join", "end", "gone"   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NJ, NE
Threads == 0..NT
Jobs == 1..(2 * NJ)
Child(v) == CASE v = 0 -> <<>> [] v = 1 -> <<1>> [] v = 2 -> <<1, 1>> [] v = 3 -> <<22>> [] v = 4 -> <<25, 1>> [] v = 5 -> <<1, 23>>
None == [op |-> "none", ph |-> 2, v |-> 0]
NoJob == [st |-> "no", prog |-> <<>>, due |-> 0, own |-> 0, kid |-> 0]
Start == [job |-> [k \in Jobs |-> NoJob], ev |-> [e \in 1..NE |-> 0], phase |-> 0, last |-> {},
          pend |-> [t \in Threads |-> None]]
Idle(s, t) == s.pend[t].op = "none"
Prog(e) == SelectSeq(<<e.p1, e.p2, e.p3, e.p4>>, LAMBDA x : x # 0)
Legal(s, e) ==
    /\ Idle(s, e.t) /\ (s.phase = 0 \/ (s.phase = 2 /\ e.op = "drop"))
    /\ CASE e.op = "mk" -> s.job[e.k].st = "no" /\ e.k <= NJ
         [] e.op \in {"blk", "done", "drop"} -> s.job[e.k].own = e.t
         [] e.op = "sig" -> s.ev[e.e] = 0
         [] e.op = "close" -> TRUE
Called(s, e) ==
    LET s1 == [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, v |-> 0]] IN
    CASE e.op = "mk" -> [s1 EXCEPT !.job[e.k] = [NoJob EXCEPT !.st = "run", !.prog = Prog(e), !.own = e.t]]
      [] e.op = "sig" -> [s1 EXCEPT !.ev[e.e] = 1]
      [] e.op = "close" -> [s1 EXCEPT !.phase = 1]
      [] OTHER -> s1
Fin(s, t, v) == [s EXCEPT !.pend[t].ph = 2, !.pend[t].v = v]
Ended(s, k) == s.job[k].st \in {"end", "gone"}
\* jobs that may never be destroyed once the pool is gone: they wait for another task (or a timer's) that is
\* not going to end, or belong to such a job
Waiting(s, k) == s.job[k].st \in {"time", "join"}
Lost(s, k) == Waiting(s, k) \/ (k > NJ /\ s.job[k].st = "turn" /\ Waiting(s, k - NJ))
\* jobs the pool holds that somebody still owns are left to the owner
Kept(s, k) == s.job[k].st \in {"turn", "event"} /\ (s.job[k].own # 0 \/ (k > NJ /\ s.job[k - NJ].own # 0))
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE LET e == p.e IN
    CASE e.op \in {"mk", "sig"} -> {Fin(s, t, 0)}
      [] e.op = "blk" -> IF Ended(s, e.k) THEN {Fin([s EXCEPT !.job[e.k].own = 0], t, 0)} ELSE {}
      [] e.op = "done" -> IF Ended(s, e.k) THEN {Fin(s, t, 1), Fin(s, t, 0)} ELSE {Fin(s, t, 0)}
      [] e.op = "drop" -> {Fin([s EXCEPT !.job[e.k].own = 0], t, 0)}
      [] e.op = "close" -> IF \A k \in Jobs : s.job[k].st \in {"no", "gone"} \/ Lost(s, k)
                                                 \/ Kept(s, k)
                           THEN {Fin([s EXCEPT !.phase = 2], t, 0)} ELSE {}
Returned(s, t) == [s EXCEPT !.pend[t] = None]
\* a running job goes on to its next step ...
Head1(s, k) == IF s.job[k].prog = <<>> THEN 0 ELSE s.job[k].prog[1]
Kid(k) == k + NJ
ParkOK(s, k, now) == s.job[k].st = "run" /\ Head1(s, k) \in {1, 2} \cup (10..29) /\ s.phase < 2
Park(s, k, now) ==
    LET h == Head1(s, k) IN
    [s EXCEPT !.job[k].st = (CASE h = 1 -> "turn" [] h = 2 -> "join" [] h < 20 -> "event" [] OTHER -> "time"),
              !.job[k].due = now + (IF h \in 20..29 THEN 1000 * (h - 20) ELSE 0)]
ForkOK(s, k) == s.job[k].st = "run" /\ Head1(s, k) \in 30..39 /\ s.job[Kid(k)].st = "no" /\ s.phase < 2
Fork(s, k) == [s EXCEPT !.job[k].prog = Tail(@), !.job[Kid(k)] = [NoJob EXCEPT !.st = "run", !.prog = Child(Head1(s, k) - 30)]]
FireOK(s, k) == s.job[k].st = "run" /\ Head1(s, k) \in 40..49 /\ s.phase < 2
Fire(s, k) == [s EXCEPT !.job[k].prog = Tail(@), !.ev[Head1(s, k) - 40] = 1]
\* ... and is resumed: on thread w of the pool, unless it did not have to wait at all
CanGo(s, k, now) ==
    CASE s.job[k].st = "turn" -> TRUE
      [] s.job[k].st = "event" -> s.ev[Head1(s, k) - 10] = 1
      [] s.job[k].st = "time" -> now >= s.job[k].due
      [] s.job[k].st = "join" -> Ended(s, Kid(k))
      [] OTHER -> FALSE
GoOK(s, k, w, now) == CanGo(s, k, now) /\ s.phase < 2
                        /\ (s.job[k].st = "turn" => w # 0 /\ w \notin s.last)
Go(s, k, w) == [s EXCEPT !.job[k].st = "run", !.job[k].prog = Tail(@),
                         !.last = IF s.phase = 1 /\ 0 \in @ /\ s.job[k].st = "turn" THEN @ \cup {w} ELSE @]
\* the destroying thread waits for the pool's threads: each of them may have taken a job just before, and takes no other
Joins(s) == [s EXCEPT !.last = {0}]
EndOK(s, k) == s.job[k].st = "run" /\ s.job[k].prog = <<>> /\ s.phase < 2
End(s, k) == [s EXCEPT !.job[k].st = "end"]
\* the job's own objects are destroyed: when it has ended, or with the pool
GoneOK(s, k) == s.job[k].st = "end" \/ (s.phase > 0 /\ s.job[k].st \in {"turn", "event", "time", "join"})
Gone(s, k) == [s EXCEPT !.job[k].st = "gone"]
\* nothing is left to do while the pool is up
AtRest(s, now) == \A k \in Jobs : s.job[k].st \notin {"run", "end", "turn", "time"} /\ ~CanGo(s, k, now)
=============================================================================
