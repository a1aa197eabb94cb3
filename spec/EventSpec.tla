----------------------------- MODULE EventSpec -----------------------------
(* Events in shared slots. An event is an object of its own (made with a     *)
(* fresh identity, moved between slots, gone when its slot is overwritten);  *)
(* it is set or not. wait names a range of slots and returns the position of *)
(* one whose event is set at that moment. A source event (made from a pipe)  *)
(* is set while bytes are left in the pipe; a sink event (made from the other *)
(* end) is set while there is room.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NS
Threads == 0..NT
Slots == 1..NS
None == [op |-> "none", ph |-> 2, v |-> 0]
\* kind: 0 nothing, 1 event, 2 source, 3 sink; set: for a source the number of bytes
Empty == [kind |-> 0, set |-> 0]
Start == [slot |-> [j \in Slots |-> Empty], pend |-> [t \in Threads |-> None]]
Idle(s, t) == s.pend[t].op = "none"
Uses(e) == CASE e.op \in {"sig", "rst", "try", "new", "src", "drop", "pw", "pr", "snk", "fill", "room"} -> {e.j}
             [] e.op = "mv" -> {e.j, e.i}
             [] e.op = "wait" -> e.lo..e.hi
             [] e.op = "tmr" -> {}
Changes(e) == IF e.op \in {"new", "src", "snk", "drop", "mv"} THEN Uses(e) ELSE {}
Busy(s) == UNION {IF s.pend[t].op = "none" THEN {} ELSE Uses(s.pend[t].e) : t \in Threads}
BusyChanging(s) == UNION {IF s.pend[t].op = "none" THEN {} ELSE Changes(s.pend[t].e) : t \in Threads}
Legal(s, e) ==
    /\ Idle(s, e.t)
    /\ Changes(e) \cap Busy(s) = {} /\ Uses(e) \cap BusyChanging(s) = {}
    /\ CASE e.op \in {"sig", "rst"} -> s.slot[e.j].kind = 1
         [] e.op = "try" -> s.slot[e.j].kind # 0
         [] e.op = "pw" -> s.slot[e.j].kind = 2
         [] e.op \in {"fill", "room"} -> s.slot[e.j].kind = 3
         [] e.op = "pr" -> s.slot[e.j].kind = 2 /\ s.slot[e.j].set > Cardinality({t \in Threads : s.pend[t].op = "pr" /\ s.pend[t].ph # 2 /\ s.pend[t].e.j = e.j})
         [] e.op \in {"new", "src", "snk", "mv", "drop"} -> TRUE
         [] e.op = "wait" -> e.lo <= e.hi /\ \A j \in e.lo..e.hi : s.slot[j].kind # 0
         [] e.op = "tmr" -> TRUE
Called(s, e) == [s EXCEPT !.pend[e.t] = [op |-> e.op, e |-> e, ph |-> 0, v |-> 0]]
Fin(s, t, v) == [s EXCEPT !.pend[t].ph = 2, !.pend[t].v = v]
IsSet(s, j) == s.slot[j].set > 0
Lin(s, t) ==
    LET p == s.pend[t] IN
    IF p.ph = 2 THEN {}
    ELSE LET e == p.e IN
    CASE e.op = "sig" -> {Fin([s EXCEPT !.slot[e.j].set = 1], t, 0)}
      [] e.op = "rst" -> {Fin([s EXCEPT !.slot[e.j].set = 0], t, 0)}
      [] e.op = "pw" -> {Fin([s EXCEPT !.slot[e.j].set = @ + 1], t, 0)}
      [] e.op = "pr" -> {Fin([s EXCEPT !.slot[e.j].set = @ - 1], t, 0)}
      [] e.op = "try" -> {Fin(s, t, IF IsSet(s, e.j) THEN 1 ELSE 0)}
      [] e.op = "new" -> {Fin([s EXCEPT !.slot[e.j] = [kind |-> 1, set |-> 0]], t, 0)}
      [] e.op = "src" -> {Fin([s EXCEPT !.slot[e.j] = [kind |-> 2, set |-> 0]], t, 0)}
      [] e.op = "snk" -> {Fin([s EXCEPT !.slot[e.j] = [kind |-> 3, set |-> 1]], t, 0)}
      [] e.op = "fill" -> {Fin([s EXCEPT !.slot[e.j].set = 0], t, 0)}
      [] e.op = "room" -> {Fin([s EXCEPT !.slot[e.j].set = 1], t, 0)}
      [] e.op = "drop" -> {Fin([s EXCEPT !.slot[e.j] = Empty], t, 0)}
      [] e.op = "mv" -> {Fin(IF e.i = e.j THEN s ELSE [s EXCEPT !.slot[e.i] = s.slot[e.j], !.slot[e.j] = Empty], t, 0)}
      [] e.op = "wait" -> {Fin(s, t, j - e.lo) : j \in {x \in e.lo..e.hi : IsSet(s, x)}}
      [] e.op = "tmr" -> {Fin(s, t, 1)}
Returned(s, t) == [s EXCEPT !.pend[t] = None]
=============================================================================
