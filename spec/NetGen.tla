------------------------------- MODULE NetGen -------------------------------
(* Histories over several sockets to be executed, every transition of small  *)
(* instances and long random ones. Operations that must be refused are       *)
(* marked bad and end a history.                                             *)
EXTENDS NetSpec, GenBase
CONSTANTS Objs, Ports, Sizes, MaxQueue
VARIABLES k, auto, lab, ctr
vars == <<k, auto, lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
Init == k = [i \in Objs |-> Dead] /\ auto = 0 /\ lab = [op |-> "init"] /\ ctr = 0
LiveK(i) == i \in Objs /\ k[i].st = "live"
Room(to) == \A j \in Receiver(k, to) : Len(k[j].q) < MaxQueue
\* what an operation is: whether it may be done, whether it is refused, and what it leads to
Can(e) ==
    CASE e.op = "new" -> k[e.i].st = "none"
      [] e.op = "del" -> k[e.i].st # "none"
      [] e.op = "movenew" -> e.i # e.j /\ k[e.i].st = "none" /\ k[e.j].st # "none"
      [] e.op = "move" -> k[e.i].st # "none" /\ k[e.j].st # "none"
      [] e.op = "bind" -> LiveK(e.i) /\ k[e.i].at = NoAddr
      [] e.op = "send" -> LiveK(e.i) /\ Room(<<e.h, e.p>>)
      [] e.op = "reply" -> LiveK(e.i) /\ k[e.i].last # NoAddr /\ Room(k[e.i].last)
      [] e.op = "recv" -> LiveK(e.i)
      [] e.op = "xsend" -> Room(<<e.h, e.p>>)
      [] e.op = "xrecv" -> TRUE
      [] e.op = "badaddr" -> TRUE
Bad(e) == (e.op = "bind" /\ Taken(k, <<e.h, e.p>>)) \/ (e.op \in {"send", "reply"} /\ e.n > Capacity) \/ e.op = "badaddr"
Step(e) ==
    CASE e.op = "new" -> [k EXCEPT ![e.i] = Fresh]
      [] e.op = "del" -> [k EXCEPT ![e.i] = Dead]
      [] e.op \in {"move", "movenew"} -> IF e.i = e.j THEN k ELSE [k EXCEPT ![e.i] = k[e.j], ![e.j] = [Dead EXCEPT !.st = "moved"]]
      [] e.op = "bind" -> [k EXCEPT ![e.i].at = <<e.h, e.p>>]
      [] e.op = "send" -> Sent(k, e.i, <<e.h, e.p>>, Data(e.s, e.n), auto)
      [] e.op = "reply" -> Sent(k, e.i, k[e.i].last, Data(e.s, e.n), auto)
      [] e.op = "recv" -> IF k[e.i].q = <<>> THEN k ELSE [k EXCEPT ![e.i].q = Tail(@), ![e.i].last = Head(k[e.i].q).from]
      [] e.op = "xsend" -> Put(k, <<e.h, e.p>>, [d |-> Data(e.s, e.n), from |-> <<1, 50>>])
      [] OTHER -> k
Autos(e) == IF e.op \in {"send", "reply"} /\ k[e.i].at = NoAddr THEN auto + 1 ELSE auto
Ops == {[op |-> o, i |-> i] : o \in {"new", "del", "recv"}, i \in Objs}
       \cup {[op |-> o, i |-> i, j |-> j] : o \in {"move", "movenew"}, i \in Objs, j \in Objs}
       \cup {[op |-> "bind", i |-> i, h |-> h, p |-> p] : i \in Objs, h \in 0..1, p \in Ports}
       \cup {[op |-> "send", i |-> i, h |-> 1, p |-> p, s |-> i, n |-> n] : i \in Objs, p \in Ports, n \in Sizes}
       \cup {[op |-> "reply", i |-> i, s |-> i + 2, n |-> n] : i \in Objs, n \in Sizes}
       \cup {[op |-> "xsend", h |-> 1, p |-> p, s |-> 9, n |-> n] : p \in Ports, n \in Sizes}
       \cup {[op |-> "badaddr", n |-> n] : n \in 0..9}
Small == auto <= 1
Next == \E e \in Ops : /\ Can(e) /\ Autos(e) <= 2
                       /\ IF Bad(e) THEN lab' = e @@ [bad |-> 1] /\ UNCHANGED <<k, auto>>
                          ELSE lab' = e /\ k' = Step(e) /\ auto' = Autos(e)
                       /\ UNCHANGED ctr
Spec == Init /\ [][Next]_vars
View == <<k, auto>>
Shape(m) == [i \in 1..2 |-> <<m[i].st, m[i].at, [j \in 1..Len(m[i].q) |-> <<m[i].q[j].d, m[i].q[j].from>>], m[i].last>>]
Emit == EmitEdge(<<Shape(k), auto>>, lab', <<Shape(k'), auto'>>)
RSize == IF R(1..3) = 1 THEN R(0..20) ELSE IF R(1..3) = 1 THEN R({0, 1, 1471, 1472}) ELSE R(0..Capacity)
XSize == IF R(1..3) = 1 THEN R({1473, 1474, 2000, 9000}) ELSE RSize
RandomOp(o) ==
    CASE o \in {"new", "new2", "del"} -> [op |-> IF o = "del" THEN o ELSE "new", i |-> R(Objs)]
      [] o \in {"recv", "recv2", "recv3"} -> [op |-> "recv", i |-> R(Objs)]
      [] o \in {"move", "movenew"} -> [op |-> o, i |-> R(Objs), j |-> R(Objs)]
      [] o = "bind" -> [op |-> "bind", i |-> R(Objs), h |-> R(0..2), p |-> R(Ports)]
      [] o \in {"send", "send2", "send3"} -> [op |-> "send", i |-> R(Objs), h |-> R(1..2), p |-> R(Ports), s |-> R(1..60), n |-> RSize]
      [] o \in {"reply", "reply2"} -> [op |-> "reply", i |-> R(Objs), s |-> R(1..60), n |-> RSize]
      [] o = "xsend" -> [op |-> "xsend", h |-> R(1..2), p |-> R(Ports), s |-> R(1..60), n |-> XSize]
      [] o = "xrecv" -> [op |-> "xrecv"]
SimNext == \E o \in {R({"new", "new2", "del", "recv", "recv2", "recv3", "move", "movenew", "bind", "send", "send2", "send3", "reply", "reply2", "xsend", "xrecv"})} :
           \E e \in {RandomOp(o)} :
             /\ ctr' = ctr + 1
             /\ IF Can(e) /\ ~Bad(e) THEN lab' = e /\ k' = Step(e) /\ auto' = Autos(e)
                ELSE lab' = [op |-> "nop"] /\ UNCHANGED <<k, auto>>
SimEmit == EmitEdge(<<ctr>>, lab', <<ctr'>>)
=============================================================================
