------------------------------ MODULE ClockGen ------------------------------
(* Random histories of threads that start, sleep, are signalled, read the    *)
(* clocks and move between cores.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, GenBase
CONSTANTS NT, MaxSleep
VARIABLES on, sl, lg, lab, ctr, budget \* running, asleep, asleep for longer than the history
vars == <<on, sl, lg, lab, ctr, budget>>
R(S) == RandomElement({x \in S : ctr >= 0})
Init == on = {} /\ sl = {} /\ lg = {} /\ lab = [op |-> "init"] /\ ctr = 0 /\ budget = MaxSleep
All == 1..NT
Codes == {1, 2, 4, 11, 13, 22, 28, 110, 4711, 99999}
Idle == {0} \cup (on \ sl)
Kinds == {"start", "start2", "exit", "sleep", "sleep2", "long", "signal", "signal2", "join", "join2", "read", "read2", "pin", "prio", "conv", "wall",
          "text", "text2", "errs", "hw", "pause"}
Durations == {0, 1, 2, 7, 13, 20, 35, 60, 100}
Ready(o) == CASE o \in {"start", "start2"} -> on # All
              [] o = "exit" -> on \ sl # {}
              [] o \in {"sleep", "sleep2"} -> on \ sl # {} /\ budget > 0
              [] o = "long" -> on \ sl # {} /\ R(1..4) = 1
              [] o \in {"signal", "signal2"} -> sl # {}
              [] o \in {"join", "join2"} -> sl \ lg # {}
              [] OTHER -> TRUE
Op(o) ==
    CASE o \in {"start", "start2"} -> [op |-> "start", t |-> R(All \ on)]
      [] o = "exit" -> [op |-> "exit", t |-> R(on \ sl)]
      [] o \in {"sleep", "sleep2"} -> [op |-> "sleep", t |-> R(on \ sl), ms |-> R(Durations)]
      [] o = "long" -> [op |-> "long", t |-> R(on \ sl), i |-> R(0..11)]
      [] o \in {"signal", "signal2"} -> [op |-> "signal", t |-> R(sl)]
      [] o \in {"join", "join2"} -> [op |-> "join", t |-> R(sl \ lg)]
      [] o \in {"read", "read2"} -> [op |-> "read", t |-> R(Idle)]
      [] o = "pin" -> [op |-> "pin", t |-> R(Idle), i |-> R(0..63)]
      [] o = "prio" -> [op |-> "prio", t |-> R(Idle), p |-> R(0..3)]
      [] o = "conv" -> [op |-> "conv", n |-> R(0..3) * R(0..30000)]
      [] o = "errs" -> [op |-> "errs", a |-> R(Codes), b |-> R(Codes)]
      [] o \in {"text", "text2"} -> [op |-> "text", more |-> R(0..86399), days |-> R({0, 1, 364, 365, 10957, 11016, 20000, 24855, 24856, 30000, 40000, 100000}),
                        secs |-> R({0, 1, 59, 60, 61, 3599, 3600, 3661, 43199, 43200, 43201, 86399}), off |-> R({0, 60, -300, 330, -570, 765, -720})]
      [] o = "pause" -> [op |-> "pause", t |-> R(Idle)]
      [] OTHER -> [op |-> o]
\* a thread in a long sleep stays in it: it can be signalled, not joined
SimNext == /\ ctr' = ctr + 1
           /\ \E o \in {R({k \in Kinds : Ready(k)})} : \E e \in {Op(o)} :
              /\ lab' = e
              /\ on' = CASE e.op = "start" -> on \cup {e.t} [] e.op = "exit" -> on \ {e.t} [] OTHER -> on
              /\ sl' = CASE e.op \in {"sleep", "long"} -> sl \cup {e.t} [] e.op = "join" -> sl \ {e.t} [] OTHER -> sl
              /\ lg' = IF e.op = "long" THEN lg \cup {e.t} ELSE lg
              /\ budget' = IF e.op = "sleep" THEN budget - 1 ELSE budget
SimEmit == EmitEdge(<<ctr>>, lab', <<ctr'>>)
=============================================================================
