----------------------------- MODULE RngDesign ------------------------------
(* The algorithms, for words of W bits and every word a generator could      *)
(* yield: range in wrapping arithmetic for signed and unsigned types of up   *)
(* to W bits reaches exactly the values in bounds, unit the multiples of its *)
(* resolution below one, and shuffling makes every permutation from exactly  *)
(* one sequence of draws.                                                    *)
EXTENDS RngSpec
CONSTANTS W, MaxN, Wrap
VARIABLES what, bits, sgn, lo, hi, r, out, vec, i, draws
vars == <<what, bits, sgn, lo, hi, r, out, vec, i, draws>>
P(n) == 2 ^ n
Words == 0..(P(W) - 1)
MinOf(b, s) == IF s THEN -P(b - 1) ELSE 0
MaxOf(b, s) == IF s THEN P(b - 1) - 1 ELSE P(b) - 1
\* conversion of a word to the type
To(x, b, s) == LET y == x % P(b) IN IF s /\ y >= P(b - 1) THEN y - P(b) ELSE y
\* the remainder of truncating division
Rem(x, y) == IF x >= 0 THEN x % y ELSE -((-x) % y)
UWord(x) == x % P(W)
Diff == UWord(UWord(hi) - UWord(lo))
Range(rr) == IF sgn THEN IF Wrap THEN To(UWord(lo) + (rr % Diff), bits, TRUE)
                         ELSE To(lo + Rem(To(rr, bits, TRUE), To(hi - lo, bits, TRUE)), bits, TRUE)
             ELSE To(lo + (To(rr, bits, FALSE) % To(hi - lo, bits, FALSE)), bits, FALSE)
Init == /\ what \in {"range", "shuffle", "unit"} /\ i = 0 /\ draws = <<>> /\ out = 0
        /\ IF what = "range" THEN /\ bits \in {W, W - 1} /\ sgn \in BOOLEAN /\ lo \in MinOf(bits, sgn)..MaxOf(bits, sgn)
                                  /\ hi \in MinOf(bits, sgn)..MaxOf(bits, sgn) /\ lo < hi /\ r = 0 /\ vec = <<>>
           ELSE IF what = "unit" THEN bits \in 1..(W - 1) /\ sgn = FALSE /\ lo = 0 /\ hi = 0 /\ r \in Words /\ vec = <<>>
           ELSE bits = 0 /\ sgn = FALSE /\ lo = 0 /\ hi = 0 /\ r = 0 /\ \E n \in 0..MaxN : vec = [j \in 1..n |-> j]
\* for i = 0, i + 1 < length: swap element i with a random one of i .. length - 1
Swap(v, a, b) == [v EXCEPT ![a] = v[b], ![b] = v[a]]
Step == /\ what = "shuffle" /\ i + 1 < Len(vec) /\ i' = i + 1 /\ UNCHANGED <<what, bits, sgn, lo, hi, r, out>>
        /\ \E j \in i..(Len(vec) - 1) : vec' = Swap(vec, i + 1, j + 1) /\ draws' = Append(draws, j)
Spec == Init /\ [][Step]_vars
Sound == CASE what = "range" -> \* every word is in bounds and every value has one
                                /\ {Range(x) : x \in Words} = lo..(hi - 1)
           [] what = "unit" -> LET v == r \div P(W - bits) IN v \in 0..(P(bits) - 1)
           [] what = "shuffle" -> IsPermutation(vec)
\* the draws can be read off the finished permutation, and there are as many sequences of draws as permutations
RECURSIVE Undo(_, _)
Undo(v, d) == IF d = <<>> THEN v ELSE Undo(Swap(v, Len(d), d[Len(d)] + 1), SubSeq(d, 1, Len(d) - 1))
Invertible == what = "shuffle" => Undo(vec, draws) = [j \in 1..Len(vec) |-> j]
=============================================================================
