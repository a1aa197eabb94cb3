------------------------------ MODULE TaskGen ------------------------------
(* Generates concurrent programs over tasks and gates and checks small       *)
(* instances of TaskSpec exhaustively.                                       *)
EXTENDS TaskSpec, GenBase
CONSTANTS Kinds, MaxOps
VARIABLES s, n, nk, ng, lab, ctr
vars == <<s, n, nk, ng, lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
Users == 1..NT
\* fresh gates are numbered in order
GateArgs == {<<0, 0>>} \cup (IF ng < NGate THEN {<<ng + 1, 0>>} ELSE {}) \cup (IF ng + 1 < NGate THEN {<<ng + 1, ng + 2>>} ELSE {})
SuspArgs == {<<Susp, 0>>} \cup (IF ng < NGate THEN {<<Susp, ng + 1>>} ELSE {})
Args(k, t) ==
    CASE k \in {"mk", "mkv", "aw", "then"} ->
            IF nk = NK THEN {} ELSE {[op |-> k, t |-> t, k |-> nk + 1, j |-> j, g1 |-> g[1], g2 |-> g[2], x |-> (nk + 1) * 10] :
                                      j \in 1..NV, g \in GateArgs \cup (IF k = "mk" THEN SuspArgs ELSE {})}
      [] k = "aw2" -> IF nk = NK THEN {} ELSE [op : {k}, t : {t}, k : {nk + 1}, j : 1..NV, i : 1..NV, g1 : {0}, g2 : {0}, x : {(nk + 1) * 10}]
      [] k \in {"blk", "done", "drop", "res", "ok"} -> [op : {k}, t : {t}, j : 1..NV]
      [] k = "mv" -> [op : {k}, t : {t}, j : 1..NV, i : 1..NV]
      [] k = "open" -> IF ng = 0 THEN {} ELSE [op : {k}, t : {t}, g : {g \in 1..ng : s.gate[g] = 0}]
\* tasks that would wait for a resume nobody gives are not dropped or awaited
Sane(e) == /\ e.op \in {"blk", "drop", "aw", "then", "aw2"} => Susp \notin {s.task[V(s, e)].g[i] : i \in 1..Len(s.task[V(s, e)].g)}
           /\ e.op = "aw2" => s.task[s.var[e.t][e.i]].g = <<>> \/ Susp # s.task[s.var[e.t][e.i]].g[1]
           /\ e.op = "mv" => s.var[e.t][e.i] = 0 \/ s.task[s.var[e.t][e.i]].g = <<>> \/ Susp # s.task[s.var[e.t][e.i]].g[1]
           /\ e.op = "mv" => s.var[e.t][e.j] # 0
           /\ e.op = "then" => s.task[V(s, e)].void = 0
DoCall(e) == /\ s' = Called(s, e) /\ n' = [n EXCEPT ![e.t] = @ + 1] /\ nk' = (IF e.op \in MakeOps THEN nk + 1 ELSE nk)
             /\ ng' = (IF e.op \in MakeOps THEN ng + Cardinality({g \in {e.g1, e.g2} : g \notin {0, Susp}}) ELSE ng)
             /\ lab' = e /\ ctr' = ctr + 1
Quiet == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<n, nk, ng>>
Step(t) == s' \in Lin(s, t) /\ Quiet
Return(t) == s.pend[t].op # "none" /\ s.pend[t].ph = 2 /\ s' = Returned(s, t) /\ Quiet
Go(k) == /\ CanGo(s, k)
         /\ s' = (IF s.task[k].ch # <<>> THEN Aw(s, k) ELSE IF s.task[k].g # <<>> THEN Pass(s, k) ELSE End(s, k))
         /\ Quiet
Init == s = Start /\ n = [t \in Users |-> 0] /\ nk = 0 /\ ng = 0 /\ lab = [op |-> "init"] /\ ctr = 0
Next == \/ \E t \in Users : \/ (n[t] < MaxOps /\ \E k \in Kinds : \E e \in Args(k, t) : Legal(s, e) /\ Sane(e) /\ DoCall(e))
                            \/ Step(t) \/ Return(t)
        \/ \E k \in 1..NK : Go(k)
View == <<s, n, nk, ng>>
Spec == Init /\ [][Next]_vars
\* a task has one owner: a variable or the one task that awaits it
Owned == \A k \in 1..NK :
    Cardinality({<<t, j>> \in Users \X (1..NV) : s.var[t][j] = k}) + Cardinality({p \in 1..NK : \E i \in 1..Len(s.task[p].ch) : s.task[p].ch[i] = k}) <= 1
\* the value of a finished task is its own plus that of everything it awaited
BlkOK == \A t \in Users : s.pend[t].op = "blk" /\ s.pend[t].ph = 2 => TRUE
Nop == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<s, n, nk, ng>>
Useful(t) == {e \in UNION {Args(k, t) : k \in Kinds} : Legal(s, e) /\ Sane(e)}
RandomCall(t) == \E us \in {Useful(t)} : IF us = {} THEN Nop
                 ELSE \E k \in {R({e.op : e \in us})} : \E e \in {R({x \in us : x.op = k})} : DoCall(e)
Busy == {t \in Users : ~Idle(s, t) /\ (s.pend[t].ph = 2 \/ Lin(s, t) # {})}
Free == {t \in Users : Idle(s, t) /\ n[t] < MaxOps}
Ready == {k \in 1..NK : CanGo(s, k)}
SimNext == \E f \in {Free} : \E b \in {Busy} : \E j \in {Ready} : \E r \in {R(1..4)} :
    IF f # {} /\ (r <= 1 \/ b = {}) THEN \E t \in {R(f)} : RandomCall(t)
    ELSE IF b # {} /\ (r <= 3 \/ j = {}) THEN \E t \in {R(b)} : IF s.pend[t].ph = 2 THEN Return(t) ELSE Step(t)
    ELSE IF j # {} THEN \E k \in {R(j)} : Go(k)
    ELSE Nop
Emit == EmitEdge(<<s.gate, n, nk>>, lab', <<s'.gate, n', nk'>>)
=============================================================================
