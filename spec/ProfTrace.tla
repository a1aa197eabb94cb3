------------------------------ MODULE ProfTrace ------------------------------
EXTENDS ProfSpec, LinBase
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Begin
Call(e) == e.k0 = "c" /\ Legal(s, e) /\ s' = Called(s, e)
\* a reported frame: nodes <<name, parent, calls, inclusive, self, begin, end, children>>, numbered from 0
RECURSIVE PathOf(_, _, _)
PathOf(R, i, d) == IF i = 1 \/ d = 0 THEN <<>> ELSE Append(PathOf(R, R[i][2] + 1, d - 1), R[i][1])
Range(q) == {q[i] : i \in 1..Len(q)}
Same(R, f) ==
    LET I == 1..Len(R)
        P == [i \in I |-> PathOf(R, i, 40)]
    IN /\ \A i \in I : R[i][2] + 1 \in I /\ R[i][1] = (IF i = 1 THEN 0 ELSE R[i][1]) /\ (i > 1 => R[i][2] + 1 # i)
       /\ Len(R) = Cardinality(DOMAIN f) /\ {P[i] : i \in I} = DOMAIN f
       /\ \A i \in I : LET x == f[P[i]] IN
             /\ R[i][3] = x.calls /\ R[i][4] = x.time /\ R[i][5] = Self(f, P[i]) /\ R[i][6] = x.begin /\ R[i][7] = x.end
             /\ Range(R[i][8]) = {k - 1 : k \in {j \in I : j # 1 /\ R[j][2] + 1 = i}}
             /\ Len(R[i][8]) = Cardinality(Range(R[i][8]))
Report(e, g) == \A u \in Threads :
    LET rs == {j \in 1..Len(e.who) : e.who[j] = u} IN
    IF rs = {} THEN {} \in g[u]
    ELSE \E f \in UNION g[u] : Cardinality(rs) = 1 /\ \A j \in rs : Same(e.rep[j], f)
RetIt(e) == /\ Report(e, s.got[e.t]) /\ \A j \in 1..Len(e.who) : e.who[j] \in Threads
            /\ s' = (LET r == Returned(s, e.t) IN
                     IF e.k = 2 /\ e.who # <<>> THEN [r EXCEPT !.p[e.t] = Traced(@, e, s.pend[e.t].now)] ELSE r)
Ret(e) == /\ e.k0 = "r" /\ e.out = "ok" /\ s.pend[e.t].ph = 2 /\ s.pend[e.t].op = e.op /\ s.pend[e.t].v = e.v
          /\ IF e.op = "it" THEN RetIt(e) ELSE s' = Returned(s, e.t)
\* the threads of the program have ended
Quiet(e) == e.k0 = "n" /\ e.op = "quiet" /\ s' = s /\ \A t \in Threads : Idle(s, t) \/ (s.pend[t].op = "gone" /\ s.pend[t].ph = 2)
Fini(e) == e.k0 = "n" /\ e.op = "fini" /\ s' = s /\ e.a = 0 /\ e.b = 0
Stuck(e) == e.k0 = "n" /\ e.op = "stuck" /\ e.main = 0 /\ (\A i \in 1..Len(e.at) : e.at[i] = 0) /\ s' = s
Reset(e) == e.op = "reset" /\ s' = Begin
Next == /\ l <= Len(Trace)
        /\ \/ LET e == Ev(l) IN /\ l' = l + 1
                                /\ IF e.op = "reset" THEN Reset(e) ELSE Call(e) \/ Ret(e) \/ Quiet(e) \/ Fini(e) \/ Stuck(e)
           \/ Waits(l) /\ l' = l /\ \E t \in Threads : s' \in Lin(s, t)
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
