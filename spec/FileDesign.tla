----------------------------- MODULE FileDesign -----------------------------
(* Implementation-shaped model of reading and writing a file as a sequence   *)
(* of system calls, any of which may fail, be interrupted or transfer only a *)
(* part; while a reader is between its calls others may change the size. What  *)
(* is reported must agree with FileSpec, and the descriptor is closed.       *)
EXTENDS FileSpec
CONSTANTS MaxLen, MaxFaults, Strict
VARIABLES op, pc, f0, f, d, pos, size, done, fd, inj, ok, got
vars == <<op, pc, f0, f, d, pos, size, done, fd, inj, ok, got>>
Lens == 0..MaxLen
Start == {Absent} \cup {[File(Data(1, n)) EXCEPT !.r = r, !.w = w] : n \in Lens, r \in BOOLEAN, w \in BOOLEAN}
Init == /\ op \in {"read", "write"} /\ pc = "open" /\ f \in [Nodes -> {Absent}] /\ f0 = f
        /\ d \in {Data(2, n) : n \in Lens} /\ pos = 0 /\ size = 0 /\ done = 0 /\ fd = 0 /\ inj = <<>> /\ ok = FALSE /\ got = <<0, 0>>
InitAny == /\ op \in {"read", "write"} /\ pc = "open" /\ f \in {[i \in Nodes |-> IF i = 1 THEN n ELSE Absent] : n \in Start} /\ f0 = f
           /\ d \in {Data(2, n) : n \in Lens} /\ pos = 0 /\ size = 0 /\ done = 0 /\ fd = 0 /\ inj = <<>> /\ ok = FALSE /\ got = <<0, 0>>
Fault(c, k) == Len(inj) < MaxFaults /\ inj' = Append(inj, <<c, k>>)
Keep == UNCHANGED <<op, f0, d>>
Node1 == f[1]
End(r) == pc' = "close" /\ ok' = r
\* open, creating or truncating for a write
Open ==
    /\ pc = "open" /\ Keep /\ UNCHANGED <<pos, size, done, got>>
    /\ \/ /\ Fault("open", "fail") /\ pc' = "end" /\ ok' = FALSE /\ UNCHANGED <<f, fd>>
       \/ /\ UNCHANGED inj
          /\ IF op = "read"
             THEN IF Readable(f, TRUE, 1) THEN fd' = fd + 1 /\ pc' = "seek" /\ UNCHANGED <<f, ok>>
                  ELSE pc' = "end" /\ ok' = FALSE /\ UNCHANGED <<f, fd>>
             ELSE IF Writable(f, TRUE, 1) THEN /\ fd' = fd + 1 /\ pc' = "write" /\ UNCHANGED ok
                                               /\ f' = [f EXCEPT ![1] = [@ EXCEPT !.st = "file", !.c = <<0, 0>>]]
                  ELSE pc' = "end" /\ ok' = FALSE /\ UNCHANGED <<f, fd>>
Seek ==
    /\ pc \in {"seek", "seek0"} /\ Keep /\ UNCHANGED <<f, fd, done, got>>
    /\ \/ /\ Fault("lseek", "fail")
          /\ IF pc = "seek" \/ Strict THEN End(FALSE) /\ UNCHANGED <<pos, size>>
             ELSE pc' = "read" /\ UNCHANGED <<ok, pos, size>>
       \/ /\ UNCHANGED <<inj, ok>>
          /\ IF pc = "seek" THEN pos' = Node1.c[2] /\ size' = Node1.c[2] /\ pc' = "seek0"
             ELSE pos' = 0 /\ pc' = "read" /\ UNCHANGED size
Read ==
    /\ pc = "read" /\ Keep /\ UNCHANGED <<f, fd, size>>
    /\ IF done >= size THEN got' = Data(1, done) /\ End(TRUE) /\ UNCHANGED <<inj, done, pos>>
       ELSE \/ Fault("read", "intr") /\ UNCHANGED <<pc, ok, done, pos, got>>
            \/ Fault("read", "fail") /\ End(FALSE) /\ UNCHANGED <<done, pos, got>>
            \/ \E k \in 1..(size - done) :
                 /\ IF k < size - done THEN Fault("read", "short") ELSE UNCHANGED inj
                 /\ IF pos >= Node1.c[2] THEN got' = Data(1, done) /\ End(TRUE) /\ UNCHANGED <<done, pos>>
                    ELSE LET m == IF k < Node1.c[2] - pos THEN k ELSE Node1.c[2] - pos IN
                         done' = done + m /\ pos' = pos + m /\ UNCHANGED <<pc, ok, got>>
\* somebody else cuts the file being read, or adds to it
Meddle ==
    /\ op = "read" /\ pc = "read" /\ Node1.st = "file" /\ ~Moved(inj) /\ Keep /\ UNCHANGED <<pc, ok, pos, size, done, fd, got>>
    /\ \E n \in 0..(MaxLen + 1) : /\ n # Node1.c[2]
                               /\ Fault("read", IF n < Node1.c[2] THEN "shrink" ELSE "grow")
                               /\ f' = [f EXCEPT ![1].c = Data(1, n)]
Write ==
    /\ pc = "write" /\ Keep /\ UNCHANGED <<fd, size, pos, got>>
    /\ IF done >= d[2] THEN End(TRUE) /\ UNCHANGED <<inj, done, f>>
       ELSE \/ Fault("write", "intr") /\ UNCHANGED <<pc, ok, done, f>>
            \/ Fault("write", "fail") /\ End(FALSE) /\ UNCHANGED <<done, f>>
            \/ \E k \in 1..(d[2] - done) :
                 /\ IF k < d[2] - done THEN Fault("write", "short") ELSE UNCHANGED inj
                 /\ done' = done + k /\ f' = [f EXCEPT ![1].c = Data(2, done + k)] /\ UNCHANGED <<pc, ok>>
\* a failing close loses what was not yet stored
Close ==
    /\ pc = "close" /\ Keep /\ pc' = "end" /\ fd' = fd - 1 /\ UNCHANGED <<size, pos, done, got>>
    /\ \/ /\ Fault("close", "fail") /\ ok' = (IF op = "write" /\ Strict THEN FALSE ELSE ok)
          /\ IF op = "write" THEN \E n \in 0..f[1].c[2] : f' = [f EXCEPT ![1].c = Data(2, n)] ELSE UNCHANGED f
       \/ UNCHANGED <<inj, ok, f>>
Next == Open \/ Seek \/ Read \/ Meddle \/ Write \/ Close
Spec == InitAny /\ [][Next]_vars /\ WF_vars(Next)
Reported == pc = "end" =>
    /\ fd = 0
    /\ IF op = "read" THEN ReadOk(f0, TRUE, 1, inj, ok, got, f[1]) /\ (Moved(inj) \/ f = f0)
       ELSE WriteOk(f0, TRUE, 1, d, inj, ok, f[1])
Ends == <>(pc = "end")
=============================================================================
