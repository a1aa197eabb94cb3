---------------------------- MODULE SyncDesign ----------------------------
(* Generates concurrent programs: every behaviour calls operations that are  *)
(* legal at that moment; a program is the sequence of calls of each thread.  *)
(* Checked exhaustively on small instances: the properties of SyncSpec that  *)
(* users rely on.                                                            *)
EXTENDS SyncSpec, GenBase
CONSTANTS Kinds, MaxOps
VARIABLES s, n, lab, ctr
vars == <<s, n, lab, ctr>>
Vals == 0..2
R(S) == RandomElement({x \in S : ctr >= 0})
Args(k, t) ==
    CASE k \in {"lock", "try", "unlock", "rd", "put"} -> [op : {k}, t : {t}, m : 1..NM]
      [] k = "glock" -> [op : {k}, t : {t}, m : 1..NM, g : 1..NG]
      [] k = "gmove" -> [op : {k}, t : {t}, g : 1..NG, h : 1..NG]
      [] k = "gdrop" -> [op : {k}, t : {t}, g : 1..NG]
      [] k = "wait" -> [op : {k}, t : {t}, c : 1..NC, m : {1}]
      [] k \in {"signal", "bcast"} -> [op : {k}, t : {t}, c : 1..NC]
      [] k \in {"fsig", "fblk", "frdy"} -> [op : {k}, t : {t}, f : 1..NF]
      [] k \in {"incr", "decr", "load"} -> [op : {k}, t : {t}, a : 1..NA]
      [] k = "xchg" -> [op : {k}, t : {t}, a : 1..NA, x : Vals]
      [] k = "cas" -> [op : {k}, t : {t}, a : 1..NA, x : Vals, y : Vals]
Instant(e) == e.op \in {"rd", "put"}
DoCall(e) == /\ Legal(s, e) /\ n[e.t] < MaxOps
             /\ s' = (IF Instant(e) THEN s ELSE Called(s, e)) /\ n' = [n EXCEPT ![e.t] = @ + 1]
             /\ lab' = e /\ ctr' = ctr + 1
Step(t) == s' \in Lin(s, t) /\ UNCHANGED n /\ lab' = [op |-> "nop"] /\ ctr' = ctr + 1
Return(t) == s.pend[t].op # "none" /\ s.pend[t].ph = 2 /\ s' = Returned(s, t) /\ UNCHANGED n
             /\ lab' = [op |-> "nop"] /\ ctr' = ctr + 1
Init == s = Start /\ n = [t \in Threads |-> 0] /\ lab = [op |-> "init"] /\ ctr = 0
Next == \E t \in Threads : (\E k \in Kinds : \E e \in Args(k, t) : DoCall(e)) \/ Step(t) \/ Return(t)
View == <<s, n>>
Spec == Init /\ [][Next]_vars
\* a mutex is owed exactly one release: by its holder, directly or through one Lock object
Excl == \A m \in 1..NM :
    /\ Cardinality({<<t, g>> \in Threads \X (1..NG) : s.slot[t][g] = m /\ s.own[m] = t}) <= 1
    /\ \A t \in Threads : InSlot(s, t, m) => s.own[m] = t \/ (s.pend[t].op = "wait" /\ s.pend[t].e.m = m)
\* a thread owed a wakeup is waiting; nobody waits in two queues
Wakes == /\ s.wok \subseteq UNION {s.wq[c] : c \in 1..NC}
         /\ \A t \in Threads : Cardinality({c \in 1..NC : t \in s.wq[c]}) <= 1
\* simulation: threads that hold something mostly use it and give it back in the end
Nop == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<s, n>>
Holding(t) == \E m \in 1..NM : s.own[m] = t
Enter == {"lock", "try", "glock"}
Leave == {"unlock", "gdrop"}
Outside == {"fsig", "fblk", "frdy", "incr", "decr", "xchg", "cas", "load", "signal", "bcast"} \cup Enter
Choice(t) ==
    IF ~Holding(t) THEN Kinds \cap (IF R(1..2) = 1 THEN Enter ELSE Outside)
    ELSE IF n[t] >= MaxOps \/ R(1..3) = 1 THEN Kinds \cap Leave
    ELSE IF R(1..4) = 1 THEN Kinds ELSE Kinds \ (Leave \cup Enter)
Useful(t) == {e \in UNION {Args(k, t) : k \in Choice(t)} :
                /\ Legal(s, e)
                /\ e.op = "gdrop" => s.slot[t][e.g] # 0
                /\ e.op = "gmove" => s.slot[t][e.g] # 0}
SimCall(e) == /\ s' = (IF Instant(e) THEN s ELSE Called(s, e)) /\ n' = [n EXCEPT ![e.t] = @ + 1]
              /\ lab' = e /\ ctr' = ctr + 1
\* the kind is chosen first, so that kinds with many arguments do not dominate
RandomCall(t) == \E us \in {Useful(t)} : IF us = {} THEN Nop
                 ELSE \E k \in {R({e.op : e \in us})} : \E e \in {R({x \in us : x.op = k})} : SimCall(e)
Busy == {t \in Threads : ~Idle(s, t) /\ (s.pend[t].ph = 2 \/ Lin(s, t) # {})}
Free == {t \in Threads : Idle(s, t) /\ (n[t] < MaxOps \/ (Holding(t) /\ n[t] < 2 * MaxOps))}
SimNext == \E f \in {Free} : \E b \in {Busy} :
    IF f # {} /\ (b = {} \/ R(1..3) = 1) THEN \E t \in {R(f)} : RandomCall(t)
    ELSE IF b # {} THEN \E t \in {R(b)} : IF s.pend[t].ph = 2 THEN Return(t) ELSE Step(t)
    ELSE Nop
Emit == EmitEdge(<<s.own, s.fl, s.at, n>>, lab', <<s'.own, s'.fl, s'.at, n'>>)
=============================================================================
