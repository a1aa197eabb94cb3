------------------------------ MODULE ProfSpec ------------------------------
(* Abstract specification of frame profiles (C17). Per thread: the open       *)
(* scopes, and the timing tree of the frame in progress and of the last       *)
(* completed frame. A tree maps every chain of nested scope names to how      *)
(* often it was entered, its inclusive time, and when it was last entered and *)
(* left. Reports look at the threads one after the other.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NN
Threads == 0..NT
Names == 1..NN
None == [op |-> "none", ph |-> 2, now |-> 0, v |-> 0]
NoTree == [p \in {} |-> 0]
Idle0 == [on |-> FALSE, in |-> FALSE, path |-> <<>>, out |-> 0, cur |-> NoTree, done |-> NoTree, begin |-> -1, gone |-> FALSE]
Begin == [p |-> [t \in Threads |-> Idle0], pend |-> [t \in Threads |-> None], got |-> [t \in Threads |-> [u \in Threads |-> {}]]]
Idle(s, t) == s.pend[t].op = "none"
\* out: scopes that were opened outside of the frame
Legal(s, e) ==
    /\ Idle(s, e.t)
    /\ LET x == s.p[e.t] IN
       ~x.gone /\
       CASE e.op = "fb" -> ~x.in
         [] e.op = "fe" -> x.in /\ x.path = <<>>
         [] e.op = "en" -> TRUE
         [] e.op = "ex" -> x.path # <<>> \/ x.out > 0
         [] e.op \in {"sl", "al", "it", "gone"} -> TRUE
Entry(now) == [calls |-> 1, time |-> 0, begin |-> now, end |-> 0]
With(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
\* the frame in progress of x ends
Ended(x, now) == LET r == x.cur[<<>>]
                 IN [x EXCEPT !.in = FALSE, !.cur = NoTree,
                              !.done = With(x.cur, <<>>, [r EXCEPT !.end = now, !.time = now - r.begin])]
Step(x, e, now) ==
    CASE e.op = "fb" -> [x EXCEPT !.on = TRUE, !.in = TRUE, !.begin = now, !.cur = With(NoTree, <<>>, Entry(now))]
      [] e.op = "fe" -> Ended(x, now)
      [] e.op = "en" ->
           IF ~x.in THEN [x EXCEPT !.on = TRUE, !.out = @ + 1]
           ELSE LET q == Append(x.path, e.n)
                IN [x EXCEPT !.path = q, !.cur = With(x.cur, q, IF q \in DOMAIN x.cur THEN [x.cur[q] EXCEPT !.calls = @ + 1, !.begin = now]
                                                                ELSE Entry(now))]
      [] e.op = "ex" ->
           IF x.path = <<>> THEN [x EXCEPT !.on = TRUE, !.out = @ - 1]
           ELSE LET q == x.path
                    r == x.cur[q]
                IN [x EXCEPT !.path = SubSeq(q, 1, Len(q) - 1), !.cur = With(x.cur, q, [r EXCEPT !.time = @ + now - r.begin, !.end = now])]
      [] OTHER -> x
\* begin_frame returns the time since the previous frame began
Result(x, e, now) == IF e.op = "fb" /\ x.begin >= 0 THEN now - x.begin ELSE 0
\* what a report shows of a thread: nothing, or its last completed frame
Seen(x) == IF x.on /\ DOMAIN x.done # {} THEN {x.done} ELSE {}
\* got[t][u]: what thread u had to show at some moment of the report t is making
Show(s) == [s EXCEPT !.got = [t \in Threads |-> IF s.pend[t].op = "it" THEN [u \in Threads |-> @[t][u] \cup {Seen(s.p[u])}] ELSE @[t]]]
\* What these do is seen by no other thread, so it does not matter when between call and return it happens.
Local == {"fb", "en", "ex", "sl", "al"}
Called(s, e) ==
    IF e.op \in Local
    THEN [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 2, now |-> e.now, v |-> Result(s.p[e.t], e, e.now)],
                   !.p[e.t] = Step(@, e, e.now)]
    ELSE IF e.op = "it"
    THEN [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 2, now |-> e.now, v |-> 0], !.got[e.t] = [u \in Threads |-> {Seen(s.p[u])}]]
    ELSE [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, now |-> e.now, v |-> 0]]
Fin(s, t, v) == [s EXCEPT !.pend[t].ph = 2, !.pend[t].v = v]
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE LET e == p.e IN
    \* a thread that ends during a frame completes it first
    IF e.op = "gone" /\ s.p[t].in THEN {Show([s EXCEPT !.p[t] = Ended(@, p.now)])}
    ELSE IF e.op = "gone" THEN {Show(Fin([s EXCEPT !.p[t] = [Idle0 EXCEPT !.gone = TRUE]], t, 0))}
    ELSE {Show(Fin([s EXCEPT !.p[t] = Step(@, e, p.now)], t, 0))}
Returned(s, t) == [s EXCEPT !.pend[t] = None, !.got[t] = [u \in Threads |-> {}]]
\* a report with a callback that traces enters one more scope where its thread is
Traced(x, e, now) == Step(Step(x, [op |-> "en", n |-> e.n], now), [op |-> "ex"], now)
\* time spent below chain q that is not its own
RECURSIVE SumTimes(_, _)
SumTimes(f, D) == IF D = {} THEN 0 ELSE LET q == CHOOSE x \in D : TRUE IN f[q].time + SumTimes(f, D \ {q})
Kids(f, q) == {r \in DOMAIN f : Len(r) = Len(q) + 1 /\ SubSeq(r, 1, Len(q)) = q}
Self(f, q) == f[q].time - SumTimes(f, Kids(f, q))
\* what holds of a completed frame
Sound(f) == \A q \in DOMAIN f : /\ Self(f, q) >= 0 /\ f[q].time >= 0 /\ f[q].calls >= 1
                                /\ f[q].time <= f[<<>>].time
                                /\ q # <<>> => SubSeq(q, 1, Len(q) - 1) \in DOMAIN f
=============================================================================
