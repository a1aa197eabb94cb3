------------------------------ MODULE FileTrace ------------------------------
(* Events carry what the driver saw of every node after the call (with       *)
(* system calls of its own, as the super-user): its state, contents,         *)
(* permissions and modification time, and the number of open descriptors.    *)
EXTENDS FileSpec, TraceBase
VARIABLES l, f, sub, mt, wt
vars == <<l, f, sub, mt, wt>>
Watchers == 1..3
NoWatch == [p |-> 0, seen |-> FALSE, t |-> <<0, 0>>]
Seen(e, i) == [st |-> e.obs[i].st, c |-> e.obs[i].c, r |-> e.obs[i].r, w |-> e.obs[i].w]
Time(e, i) == e.obs[i].t
Init == l = 1 /\ f = [i \in Nodes |-> Absent] /\ sub = TRUE /\ mt = [i \in Nodes |-> <<0, 0>>] /\ wt = [i \in Watchers |-> NoWatch]

Clean(e) == e.out = "ok" /\ e.err = 0 /\ e.fds = 0
\* nothing else changes
Others(e, n) == \A i \in Nodes \ {n} : Seen(e, i) = f[i] /\ Time(e, i) = mt[i]
Now(e) == f' = [i \in Nodes |-> Seen(e, i)] /\ mt' = [i \in Nodes |-> Time(e, i)]
StatOk(e, p) == Exists(f, sub, p) /\ e.inj = <<>>

\* reading p: the node only changes if somebody else was made to change it meanwhile
ReadOf(e, p) == /\ Others(e, IF Moved(e.inj) THEN Node(p) ELSE 0)
                /\ Moved(e.inj) => Seen(e, Node(p)) = [f[Node(p)] EXCEPT !.c = Seen(e, Node(p)).c]
                /\ ReadOk(f, sub, p, e.inj, e.ok, e.c, IF Node(p) = 0 THEN Absent ELSE Seen(e, Node(p)))
Read(e) == e.op = "read" /\ ReadOf(e, e.p) /\ UNCHANGED <<sub, wt>>
WRead(e) == e.op = "wread" /\ UNCHANGED <<sub, wt>>
            /\ IF wt[e.w].p = 0 THEN ~e.ok /\ Others(e, 0) ELSE ReadOf(e, wt[e.w].p)
Write(e) == /\ e.op = "write" /\ Others(e, Node(e.p)) /\ UNCHANGED <<sub, wt>>
            /\ WriteOk(f, sub, e.p, Data(e.s, e.n), e.inj, e.ok, IF Node(e.p) = 0 THEN Absent ELSE Seen(e, Node(e.p)))
            \* a file that is created may be read and written by its owner, an existing one keeps its permissions
            /\ Node(e.p) # 0 => LET a == f[Node(e.p)] b == Seen(e, Node(e.p)) IN
                 IF a.st = "none" THEN b.r /\ b.w ELSE b.r = a.r /\ b.w = a.w
Lwt(e) == e.op = "lwt" /\ Others(e, 0) /\ UNCHANGED <<sub, wt>>
          /\ IF StatOk(e, e.p) THEN e.ok /\ e.t = mt[Node(e.p)] ELSE ~e.ok
WNew(e) == /\ e.op = "wnew" /\ Others(e, 0) /\ UNCHANGED sub
           /\ wt' = [wt EXCEPT ![e.w] = [p |-> e.p, seen |-> StatOk(e, e.p), t |-> IF StatOk(e, e.p) THEN mt[Node(e.p)] ELSE <<0, 0>>]]
Poll(e) == /\ e.op = "poll" /\ Others(e, 0) /\ UNCHANGED sub
           /\ LET w == wt[e.w] IN
              IF w.p = 0 \/ ~StatOk(e, w.p) THEN ~e.ok /\ UNCHANGED wt
              ELSE LET t == mt[Node(w.p)] IN
                   \* a file that was missing is new if it appears with a time at all
                   /\ w.seen \/ Earlier(<<0, 0>>, t) => e.ok = Earlier(w.t, t)
                   /\ wt' = [wt EXCEPT ![e.w] = [@ EXCEPT !.seen = TRUE, !.t = t]]
Env(e) ==
    /\ e.op \in {"eput", "erm", "emode", "esub", "etime", "ebig"} /\ UNCHANGED wt
    /\ sub' = (IF e.op = "esub" THEN e.m = 1 ELSE sub)
    /\ IF e.op = "esub" THEN Others(e, 0)
       ELSE /\ Others(e, e.p)
            /\ Seen(e, e.p) =
               CASE e.op = "eput" -> File(Data(e.s, e.n))
                 [] e.op = "erm" -> Absent
                 [] e.op = "ebig" -> [File(<<-2, 0>>) EXCEPT !.st = "big"]
                 [] e.op = "emode" /\ f[e.p].st # "none" -> [f[e.p] EXCEPT !.r = (e.m % 2 = 1), !.w = (e.m >= 2)]
                 [] OTHER -> f[e.p]
Reset(e) == /\ e.op = "reset" /\ f' = [i \in Nodes |-> Absent] /\ sub' = TRUE /\ mt' = [i \in Nodes |-> <<0, 0>>]
            /\ wt' = [i \in Watchers |-> NoWatch] /\ e.out = "ok"
End(e) == e.op = "end" /\ Clean(e) /\ UNCHANGED <<f, sub, mt, wt>>
Next == l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN Reset(e) ELSE IF e.op = "end" THEN End(e)
           ELSE Clean(e) /\ Now(e) /\ (Read(e) \/ Write(e) \/ WRead(e) \/ Lwt(e) \/ WNew(e) \/ Poll(e) \/ Env(e))
Spec == Init /\ [][Next]_vars
Track == TrackAt(l)
=============================================================================
