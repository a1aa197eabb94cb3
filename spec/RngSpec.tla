------------------------------ MODULE RngSpec -------------------------------
(* What random streams are. A stream is at a point; equal seeds start at the *)
(* same point, copies stay where the original is, and what an operation      *)
(* yields and which point it leads to depends on the point and the operation *)
(* only. Nothing is said about which numbers these are, except that they are *)
(* in bounds and spread evenly. 64-bit numbers are four 16-bit digits, most  *)
(* significant first; signed ones are shifted so that the order is the same. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Lt(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
InRange(lo, v, hi) == ~Lt(v, lo) /\ Lt(v, hi)
IsPermutation(p) == {p[i] : i \in 1..Len(p)} = 1..Len(p)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* n draws over k equally likely outcomes: each count within six standard deviations
Even(h, n) == LET k == Len(h) IN Sum(h) = n /\ \A i \in 1..k : LET d == h[i] - n \div k IN d * d <= 36 * (n \div k) + 36
\* n draws, each true with probability a / 16
Frequency(c, n, a) == LET d == 16 * c - n * a IN
    IF a = 0 THEN c = 0 ELSE IF a >= 16 THEN c = n ELSE d * d <= 36 * n * a * (16 - a)
=============================================================================
