------------------------------ MODULE FileSpec ------------------------------
(* What files are. A node is absent, a file with contents (the first n bytes *)
(* of stream s, written <<s, n>>; the empty contents are <<0, 0>>), a file   *)
(* too large to be read, or a directory. Paths name nodes. Reading yields    *)
(* exactly the contents, writing replaces them, and both may fail only when  *)
(* the node is not accessible or a system call failed for good (interrupted  *)
(* and partial transfers are no failures). Watchers compare modification     *)
(* times, which only the environment and writes change.                      *)
EXTENDS Integers, Sequences, TLC

\* paths: 1 a, 2 b, 3 sub/c, 4 a symbolic link to a, 5 in a directory that does not exist, 6 the directory sub, 7 empty, 8 a directory without a size, 9 ./sub/../b, 10 a dangling link to "sub/c"
Nodes == 1..3
Node(p) == CASE p \in 1..3 -> p [] p = 4 -> 1 [] p = 9 -> 2 [] p = 10 -> 3 [] OTHER -> 0
InSub(p) == Node(p) = 3
Absent == [st |-> "none", c |-> <<0, 0>>, r |-> TRUE, w |-> TRUE]
File(c) == [st |-> "file", c |-> c, r |-> TRUE, w |-> TRUE]
Data(s, n) == IF n = 0 THEN <<0, 0>> ELSE <<s, n>>
Prefix(c, d) == c = <<0, 0>> \/ (c[1] = d[1] /\ c[2] <= d[2])

\* f: nodes -> node; sub: whether the directory sub may be entered and changed
Reach(sub, p) == Node(p) # 0 /\ (InSub(p) \/ p = 9 => sub)
Exists(f, sub, p) == Reach(sub, p) /\ f[Node(p)].st # "none"
Readable(f, sub, p) == Exists(f, sub, p) /\ f[Node(p)].st = "file" /\ f[Node(p)].r
Writable(f, sub, p) == Reach(sub, p) /\ (f[Node(p)].st = "none" \/ f[Node(p)].w)
Hard(inj) == \E i \in 1..Len(inj) : ~(inj[i][1] \in {"read", "write"} /\ inj[i][2] \in {"intr", "short", "shrink", "grow"})

\* while a file was read, others may have cut it or added to it; h is the node afterwards
Changed(inj, what) == \E i \in 1..Len(inj) : inj[i][2] = what
Moved(inj) == Changed(inj, "shrink") \/ Changed(inj, "grow")
ReadOk(f, sub, p, inj, ok, c, h) ==
    IF ok THEN /\ Readable(f, sub, p)
               /\ IF Changed(inj, "shrink") THEN Prefix(h.c, c) /\ Prefix(c, f[Node(p)].c)
                  ELSE IF Changed(inj, "grow") THEN Prefix(f[Node(p)].c, c) /\ Prefix(c, h.c)
                  ELSE c = f[Node(p)].c
    ELSE ~Readable(f, sub, p) \/ Hard(inj) \/ Moved(inj)
\* g is the node afterwards
WriteOk(f, sub, p, d, inj, ok, g) ==
    IF ok THEN Writable(f, sub, p) /\ g.st = "file" /\ g.c = d
    ELSE IF ~Writable(f, sub, p) THEN Node(p) # 0 => g = f[Node(p)]
    ELSE Hard(inj) /\ (g = f[Node(p)] \/ (g.st = "file" /\ Prefix(g.c, d)))

\* times are <<seconds, nanoseconds>>
Earlier(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
=============================================================================
