----------------------------- MODULE ProfDesign -----------------------------
(* Implementation-shaped model of one thread's frames: nodes in a vector with *)
(* the index of their parent and of their children, a current node, a queue   *)
(* of frames. Checked to implement ProfSpec and to add up; also generates the *)
(* programs of all threads (SimNext).                                         *)
EXTENDS ProfSpec, GenBase
CONSTANTS Kinds, Sleeps, MaxOps, MaxDepth
VARIABLES m, s, n, now, lab, ctr
vars == <<m, s, n, now, lab, ctr>>
Users == 1..NT
MInit == [fr |-> <<>>, cur |-> 1]
Node(nm, par, b) == [n |-> nm, par |-> par, begin |-> b, end |-> 0, time |-> 0, calls |-> 1, kids |-> <<>>]
Last(q) == q[Len(q)]
FindKid(nodes, i, nm) == {k \in 1..Len(nodes[i].kids) : nodes[nodes[i].kids[k]].n = nm}
Cap == 3        \* when the queue of frames is full the oldest is dropped
DStep(x, e) ==
    LET h == s.p[e.t] IN
    CASE e.op = "fb" -> [fr |-> Append(IF Len(x.fr) = Cap THEN Tail(x.fr) ELSE x.fr, <<Node(0, 1, now)>>), cur |-> 1]
      [] e.op = "fe" -> LET r == Last(x.fr)[1] IN [x EXCEPT !.fr[Len(x.fr)][1] = [r EXCEPT !.end = now, !.time = now - r.begin]]
      [] e.op = "en" /\ h.in ->
           LET f == Last(x.fr)
               ks == FindKid(f, x.cur, e.n)
           IN IF ks # {} THEN LET i == f[x.cur].kids[CHOOSE k \in ks : TRUE]
                              IN [fr |-> [x.fr EXCEPT ![Len(x.fr)][i] = [@ EXCEPT !.begin = now, !.calls = @ + 1]], cur |-> i]
              ELSE [fr |-> [x.fr EXCEPT ![Len(x.fr)] = Append([f EXCEPT ![x.cur].kids = Append(@, Len(f) + 1)], Node(e.n, x.cur, now))],
                    cur |-> Len(f) + 1]
      [] e.op = "ex" /\ h.in ->
           LET nd == Last(x.fr)[x.cur] IN
           [fr |-> [x.fr EXCEPT ![Len(x.fr)][x.cur] = [@ EXCEPT !.end = now, !.time = @ + now - nd.begin]], cur |-> nd.par]
      [] OTHER -> x
\* all threads take turns: operations are whole here
Whole(e) == LET c == Called(s, e @@ [now |-> now]) IN IF c.pend[e.t].ph = 2 THEN c ELSE CHOOSE z \in Lin(c, e.t) : TRUE
Do(e) == /\ e.op \in Kinds /\ Legal(s, e)
         /\ IF e.op = "it" THEN s' = s ELSE s' = Returned(Whole(e), e.t)
         /\ m' = (IF e.op = "it" THEN m ELSE [m EXCEPT ![e.t] = DStep(@, e)])
         /\ now' = (IF e.op = "sl" THEN now + e.d ELSE now)
         /\ n' = [n EXCEPT ![e.t] = @ + 1] /\ lab' = e /\ ctr' = ctr + 1
Ops(t) == [op : {"fb", "fe", "ex", "al"}, t : {t}] \cup [op : {"it"}, t : {t}, k : 0..2, n : Names] \cup [op : {"en"}, t : {t}, n : Names] \cup [op : {"sl"}, t : {t}, d : Sleeps]
Ok(e) == e.op \in Kinds /\ Legal(s, e) /\ (e.op = "en" => Len(s.p[e.t].path) < MaxDepth /\ s.p[e.t].out < 2)
Init == m = [t \in Users |-> MInit] /\ s = Begin /\ n = [t \in Users |-> 0] /\ now = 0 /\ lab = [op |-> "init"] /\ ctr = 7
Next == \E t \in Users : n[t] < MaxOps /\ \E e \in Ops(t) : Ok(e) /\ Do(e)
Spec == Init /\ [][Next]_vars
View == <<m, s, n, now>>
RECURSIVE PathOf(_, _)
PathOf(f, i) == IF i = 1 THEN <<>> ELSE Append(PathOf(f, f[i].par), f[i].n)
TreeOf(f) == [q \in {PathOf(f, i) : i \in 1..Len(f)} |->
                LET i == CHOOSE j \in 1..Len(f) : PathOf(f, j) = q
                IN [calls |-> f[i].calls, time |-> f[i].time, begin |-> f[i].begin, end |-> f[i].end]]
Refines == \A t \in Users : LET x == s.p[t]
                                y == m[t] IN
    /\ x.in => y.fr # <<>> /\ PathOf(Last(y.fr), y.cur) = x.path
              /\ [q \in DOMAIN x.cur \ {<<>>} |-> x.cur[q]] = [q \in DOMAIN TreeOf(Last(y.fr)) \ {<<>>} |-> TreeOf(Last(y.fr))[q]]
    /\ ~x.in /\ y.fr # <<>> => TreeOf(Last(y.fr)) = x.done
    /\ x.in /\ Len(y.fr) > 1 => TreeOf(y.fr[Len(y.fr) - 1]) = x.done
    /\ \A i \in 1..Len(y.fr) : Cardinality(DOMAIN TreeOf(y.fr[i])) = Len(y.fr[i])
Sums == \A t \in Users : DOMAIN s.p[t].done # {} => Sound(s.p[t].done)
R(S) == RandomElement({x \in S : ctr >= 0})
NopA == lab' = [op |-> "nop"] /\ ctr' = ctr + 1 /\ UNCHANGED <<m, s, n, now>>
Pick(t) == \E us \in {{e \in Ops(t) : Ok(e)}} : \E k \in {R({e.op : e \in us})} : \E e \in {R({x \in us : x.op = k})} : Do(e)
SimNext == \E ts \in {{t \in Users : n[t] < MaxOps}} : IF ts = {} THEN NopA ELSE \E t \in {R(ts)} : Pick(t)
EmitState == EmitEdge(<<m[1], s.p[1].out, n[1], now>>, lab', <<m'[1], s'.p[1].out, n'[1], now'>>)
Emit == EmitEdge(<<ctr>>, lab', <<ctr'>>)
=============================================================================
