------------------------------- MODULE FileGen -------------------------------
(* Histories to be executed: writes and reads (plain and asynchronous) with  *)
(* faults at chosen system calls, changes by others, watchers. The state     *)
(* only steers the choice (a faulty call may leave the file different from   *)
(* what is assumed here); every operation is permitted in every state.       *)
EXTENDS FileSpec, GenBase
CONSTANTS Mode, Sizes, Calls, Kinds
VARIABLES s, lab, ctr
vars == <<s, lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
\* s: [n: size or -1 when absent, m: mode 0..3 (1 read, 2 write), t: time, w: time the watcher saw (-1 none)]
Init == s = [n |-> -1, m |-> 3, t |-> 0, w |-> -1] /\ lab = [op |-> "init"] /\ ctr = 0
Faults == {[f |-> 0, k |-> 0]} \cup {[f |-> f, k |-> k] : f \in Calls, k \in Kinds}
IO(ps) == {[op |-> o, p |-> p, a |-> a, s |-> 1, n |-> n, g |-> 0, h |-> 0] @@ x : o \in {"write"}, p \in ps, a \in 0..1, n \in Sizes, x \in Faults}
          \cup {[op |-> "read", p |-> p, a |-> a, g |-> 0, h |-> 0] @@ x : p \in ps, a \in 0..1, x \in Faults}
Env == {[op |-> "eput", p |-> 1, s |-> 2, n |-> n] : n \in Sizes} \cup {[op |-> "erm", p |-> 1]}
       \cup {[op |-> "emode", p |-> 1, m |-> m] : m \in 0..3}
Watch == {[op |-> "wnew", w |-> 1, p |-> 1], [op |-> "poll", w |-> 1, f |-> 0, k |-> 0], [op |-> "poll", w |-> 1, f |-> 1, k |-> 3],
          [op |-> "lwt", p |-> 1, f |-> 0, k |-> 0], [op |-> "erm", p |-> 1], [op |-> "eput", p |-> 1, s |-> 2, n |-> 3]}
         \cup {[op |-> "etime", p |-> 1, t |-> t, u |-> u] : t \in {-1, 0, 1}, u \in {0, 1}}
Ops == IF Mode = "io" THEN IO({1, 4}) \cup Env \cup {[op |-> "lwt", p |-> 1, f |-> 0, k |-> 0], [op |-> "lwt", p |-> 1, f |-> 1, k |-> 3]}
       ELSE Watch
Low == s.m >= 2
Step(e) ==
    CASE e.op = "write" /\ e.f = 0 /\ (s.n = -1 \/ s.m >= 2) -> [s EXCEPT !.n = e.n, !.m = IF s.n = -1 THEN 3 ELSE @]
      [] e.op = "eput" -> [s EXCEPT !.n = e.n, !.m = 3, !.t = IF Mode = "io" THEN 0 ELSE 9]
      [] e.op = "erm" -> [s EXCEPT !.n = -1, !.m = 3, !.t = 0]
      [] e.op = "emode" -> IF s.n = -1 THEN s ELSE [s EXCEPT !.m = e.m]
      [] e.op = "etime" -> IF s.n = -1 THEN s ELSE [s EXCEPT !.t = e.t * 2 + e.u]
      [] e.op = "wnew" -> [s EXCEPT !.w = s.t]
      [] e.op = "poll" /\ e.f = 0 -> IF s.n = -1 THEN s ELSE [s EXCEPT !.w = s.t]
      [] OTHER -> s
Next == \E e \in Ops : lab' = e /\ s' = Step(e) /\ UNCHANGED ctr
Spec == Init /\ [][Next]_vars
View == s
Emit == EmitEdge(<<s.n, s.m, s.t, s.w>>, lab', <<s'.n, s'.m, s'.t, s'.w>>)

RSize == R({0, 1, 2, 3, 4, 17, 100, 4095, 4096, 4097, 70000, 300000})
RFault == IF R(1..3) = 1 THEN [f |-> R(1..9), k |-> R(1..7), g |-> IF R(1..2) = 1 THEN R(1..12) ELSE 0, h |-> R(1..7)]
          ELSE IF R(1..6) = 1 THEN [f |-> R(1..6), k |-> R(11..12), g |-> IF R(1..3) = 1 THEN R(1..6) ELSE 0, h |-> 2]
          ELSE IF R(1..3) = 1 THEN [f |-> 1, k |-> R(8..10), g |-> 0, h |-> 0] ELSE [f |-> 0, k |-> 0, g |-> 0, h |-> 0]
RPath == IF R(1..3) = 1 THEN R(1..10) ELSE R({1, 2, 3, 4, 9, 10})
RandomOp(o) ==
    CASE o \in {"write", "write2"} -> [op |-> "write", p |-> RPath, a |-> R(0..1), s |-> R(1..4), n |-> RSize] @@ RFault
      [] o \in {"read", "read2"} -> [op |-> "read", p |-> RPath, a |-> R(0..1)] @@ RFault
      [] o = "lwt" -> [op |-> "lwt", p |-> R({1, 2, 3, 4, 5, 7, 9, 10}), f |-> IF R(1..4) = 1 THEN 1 ELSE 0, k |-> 3]
      [] o = "wnew" -> [op |-> "wnew", w |-> R(1..3), p |-> R({1, 2, 3, 4, 5, 7, 9, 10})]
      [] o \in {"poll", "poll2"} -> [op |-> "poll", w |-> R(1..3), f |-> IF R(1..5) = 1 THEN 1 ELSE 0, k |-> 3]
      [] o = "wread" -> [op |-> "wread", w |-> R(1..3)] @@ RFault
      [] o = "eput" -> [op |-> "eput", p |-> R(Nodes), s |-> R(1..4), n |-> RSize]
      [] o = "erm" -> [op |-> "erm", p |-> R(Nodes)]
      [] o = "ebig" -> [op |-> "ebig", p |-> R(Nodes)]
      [] o = "emode" -> [op |-> "emode", p |-> R(Nodes), m |-> R({0, 1, 2, 3, 3})]
      [] o = "esub" -> [op |-> "esub", m |-> R(0..1)]
      [] o = "etime" -> [op |-> "etime", p |-> R(Nodes), t |-> R(-2..3), u |-> R(0..2)]
SimNext == \E o \in {R({"write", "write2", "read", "read2", "lwt", "wnew", "poll", "poll2", "wread", "eput", "erm", "ebig", "emode", "esub", "etime"})} :
            \E e \in {RandomOp(o)} : lab' = e /\ ctr' = ctr + 1 /\ UNCHANGED s
SimEmit == EmitEdge(<<ctr>>, lab', <<ctr'>>)
=============================================================================
