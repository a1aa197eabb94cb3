----------------------------- MODULE NetDesign ------------------------------
(* Implementation-shaped model of socket objects: each holds a descriptor    *)
(* number or -1, descriptors are reused lowest first, and the kernel keeps   *)
(* addresses and packets per descriptor. Checked: descriptors are owned by   *)
(* one object each and closed once, and what the objects do is what NetSpec  *)
(* says, packets and all, whatever is moved, closed, bound and reused.       *)
EXTENDS NetSpec
CONSTANTS Objs, Ports, MaxQueue, MaxAuto, Fixed
VARIABLES k, fd, kern, auto, bad, got
vars == <<k, fd, kern, auto, bad, got>>
Fds == 3..(3 + Cardinality(Objs))
Free == [open |-> FALSE, at |-> NoAddr, q |-> <<>>]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
NewFd == Least({x \in Fds : ~kern[x].open})
Init == /\ k = [i \in Objs |-> Dead] /\ fd = [i \in Objs |-> -1] /\ kern = [x \in Fds |-> Free]
        /\ auto = 0 /\ bad = FALSE /\ got = <<"none", "none">>
Close(kn, x) == IF x = -1 THEN kn ELSE [kn EXCEPT ![x] = Free]
BadClose(kn, x) == x # -1 /\ ~kn[x].open
New(i) == /\ k[i].st = "none" /\ k' = [k EXCEPT ![i] = Fresh] /\ UNCHANGED <<auto, bad, got>>
          /\ fd' = [fd EXCEPT ![i] = NewFd] /\ kern' = [kern EXCEPT ![NewFd] = [Free EXCEPT !.open = TRUE]]
Del(i) == /\ k[i].st # "none" /\ k' = [k EXCEPT ![i] = Dead] /\ UNCHANGED <<auto, got>>
          /\ fd' = [fd EXCEPT ![i] = -1] /\ kern' = Close(kern, fd[i]) /\ bad' = (bad \/ BadClose(kern, fd[i]))
MoveNew(i, j) == /\ i # j /\ k[i].st = "none" /\ k[j].st # "none" /\ UNCHANGED <<auto, bad, got, kern>>
                 /\ k' = [k EXCEPT ![i] = k[j], ![j] = [Dead EXCEPT !.st = "moved"]]
                 /\ fd' = [fd EXCEPT ![i] = fd[j], ![j] = -1]
Move(i, j) == /\ k[i].st # "none" /\ k[j].st # "none" /\ UNCHANGED <<auto, got>>
              /\ k' = IF i = j THEN k ELSE [k EXCEPT ![i] = k[j], ![j] = [Dead EXCEPT !.st = "moved"]]
              /\ IF i = j THEN UNCHANGED <<fd, kern, bad>>
                 ELSE /\ fd' = [fd EXCEPT ![i] = fd[j], ![j] = -1]
                      /\ IF Fixed THEN kern' = Close(kern, fd[i]) /\ bad' = (bad \/ BadClose(kern, fd[i])) ELSE UNCHANGED <<kern, bad>>
Bind(i, a) == /\ k[i].st = "live" /\ k[i].at = NoAddr /\ ~Taken(k, a) /\ UNCHANGED <<auto, bad, got, fd>>
              /\ k' = [k EXCEPT ![i].at = a] /\ kern' = [kern EXCEPT ![fd[i]].at = a]
\* the kernel's side of sending
KernSent(x, to, d) ==
    LET b == IF kern[x].at[2] = 0 THEN [kern EXCEPT ![x].at = <<0, 100 + auto>>] ELSE kern IN
    [y \in Fds |-> IF b[y].open /\ b[y].at[2] # 0 /\ Overlap(b[y].at, to)
                   THEN [b[y] EXCEPT !.q = Append(@, [d |-> d, from |-> SeenAs(b[x].at)])] ELSE b[y]]
Send(i, to, d) == /\ k[i].st = "live" /\ (k[i].at # NoAddr \/ auto < MaxAuto)
                  /\ \A j \in Receiver(k, to) : Len(k[j].q) < MaxQueue
                  /\ k' = Sent(k, i, to, d, auto) /\ kern' = KernSent(fd[i], to, d)
                  /\ auto' = (IF k[i].at = NoAddr THEN auto + 1 ELSE auto) /\ UNCHANGED <<fd, bad, got>>
Recv(i) == /\ k[i].st = "live" /\ UNCHANGED <<fd, bad, auto>>
           /\ IF k[i].q = <<>> THEN UNCHANGED k ELSE k' = [k EXCEPT ![i].q = Tail(@), ![i].last = Head(k[i].q).from]
           /\ LET x == fd[i] IN
              /\ IF kern[x].q = <<>> THEN UNCHANGED kern ELSE kern' = [kern EXCEPT ![x].q = Tail(@)]
              /\ got' = <<IF k[i].q = <<>> THEN "none" ELSE ToString(Head(k[i].q)), IF kern[x].q = <<>> THEN "none" ELSE ToString(Head(kern[x].q))>>
Addrs == {<<h, p>> : h \in 0..1, p \in Ports}
Next == \E i \in Objs :
    \/ New(i) \/ Del(i) \/ Recv(i)
    \/ \E j \in Objs : MoveNew(i, j) \/ Move(i, j)
    \/ \E a \in Addrs : Bind(i, a)
    \/ \E p \in Ports \cup {100} : Send(i, <<1, p>>, <<i, 1>>)
    \/ (k[i].st = "live" /\ k[i].last # NoAddr /\ Send(i, k[i].last, <<i, 2>>))
Spec == Init /\ [][Next]_vars
Owned == \A i, j \in Objs : i # j /\ fd[i] # -1 => fd[i] # fd[j]
NoLeak == \A x \in Fds : kern[x].open <=> \E i \in Objs : fd[i] = x
Agree == ~bad /\ got[1] = got[2]
         /\ \A i \in Objs : IF k[i].st = "live" THEN fd[i] # -1 /\ kern[fd[i]].at = k[i].at /\ kern[fd[i]].q = k[i].q ELSE fd[i] = -1
\* at most one socket receives at an address
Single == \A h \in 1..2, p \in Ports \cup {100} : Cardinality(Receiver(k, <<h, p>>)) <= 1
View == <<k, fd, kern, auto, bad, got[1] = got[2]>>
=============================================================================
