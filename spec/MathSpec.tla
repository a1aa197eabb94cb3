------------------------------ MODULE MathSpec ------------------------------
(* What the integer helpers mean. An operation names a type w (1..4: 8, 16,  *)
(* 32, 64 bits; 5..8: the same signed) and up to three arguments given as    *)
(* four 16-bit limbs each; here they are digits to base 256.                 *)
EXTENDS Num
Bs == 256
Bytes(w) == IF w \in {1, 5} THEN 1 ELSE IF w \in {2, 6} THEN 2 ELSE IF w \in {3, 7} THEN 4 ELSE 8
Nd(w) == Bytes(w)
Signed(w) == w >= 5
Hex(v) == <<v % 256, v \div 256>>
Arg(l1, l2, l3, l4, w) == SubSeq(Hex(l1) \o Hex(l2) \o Hex(l3) \o Hex(l4), 1, Nd(w))
X(e) == Arg(e.a1, e.a2, e.a3, e.a4, e.w)
Y(e) == Arg(e.b1, e.b2, e.b3, e.b4, e.w)
Z(e) == Arg(e.c1, e.c2, e.c3, e.c4, e.w)
Lt(a, b, w) == IF Signed(w) THEN LessS(a, b, Bs) ELSE Less(a, b, Bs)
Least(a, b, w) == IF Lt(b, a, w) THEN b ELSE a
Most(a, b, w) == IF Lt(a, b, w) THEN b ELSE a
MaxOf(w) == [i \in 1..Nd(w) |-> IF i = Nd(w) /\ Signed(w) THEN 127 ELSE 255]
MinOf(w) == [i \in 1..Nd(w) |-> IF i = Nd(w) /\ Signed(w) THEN 128 ELSE 0]
Num_(v, w) == [i \in 1..Nd(w) |-> IF i = 1 THEN v ELSE 0]
Top64(w) == Pow2(8 * Nd(w) - 1, Nd(w), Bs)
\* the magnitude of a power, and whether the signed result is below zero
PowOf(e) == PowFits(IF Signed(e.w) THEN AbsOf(X(e), Bs) ELSE X(e), e.n, Bs)
PowNeg(e) == Signed(e.w) /\ Negative(X(e), Bs) /\ e.n % 2 = 1
Unary == {"popcount", "ctlz", "log2", "prev", "next"}
Aligns == {"align", "down", "alignp", "downp"}
Kilo == {"kb", "mb", "gb"}
KiloBits(o) == IF o = "kb" THEN 10 ELSE IF o = "mb" THEN 20 ELSE 30
\* the arguments for which a result is meant
Legal(e) ==
    CASE e.op \in {"min", "max", "minl", "maxl"} -> e.w \in 1..8
      [] e.op = "clamp" -> e.w \in 1..8 /\ ~Lt(Z(e), Y(e), e.w)
      [] e.op = "limits" -> e.w \in 1..8
      [] e.op = "abs" -> e.w \in {7, 8} /\ X(e) # MinOf(e.w)
      [] e.op = "pow" -> /\ e.w \in 1..8 /\ e.n >= 0
                         /\ LET r == PowOf(e) IN r[1] /\ (Signed(e.w) => ~Negative(r[2], Bs) \/ (PowNeg(e) /\ r[2] = MinOf(e.w)))
      [] e.op \in {"popcount", "ctlz", "prev"} -> e.w \in {3, 4}
      [] e.op = "log2" -> e.w \in {3, 4} /\ ~IsZero(X(e))
      [] e.op = "next" -> e.w \in {3, 4} /\ ~Less(Top64(e.w), X(e), Bs)
      [] e.op \in {"align", "alignp"} -> e.w \in {3, 4} /\ ~IsZero(Y(e)) /\ (e.op = "alignp" => IsPow2(Y(e))) /\ UpFits(X(e), Y(e), Bs)
      [] e.op \in {"down", "downp"} -> e.w \in {3, 4} /\ ~IsZero(Y(e)) /\ (e.op = "downp" => IsPow2(Y(e)))
      [] e.op \in Kilo -> e.w = 4 /\ Less(X(e), Pow2(64 - KiloBits(e.op), 8, Bs), Bs)
Result(e) ==
    LET w == e.w IN
    CASE e.op \in {"min", "minl"} -> LET m == Least(X(e), Y(e), w) IN IF e.op = "min" THEN m ELSE Least(m, Z(e), w)
      [] e.op \in {"max", "maxl"} -> LET m == Most(X(e), Y(e), w) IN IF e.op = "max" THEN m ELSE Most(m, Z(e), w)
      [] e.op = "clamp" -> IF Lt(X(e), Y(e), w) THEN Y(e) ELSE IF Lt(Z(e), X(e), w) THEN Z(e) ELSE X(e)
      [] e.op = "limits" -> MinOf(w) \o MaxOf(w)
      [] e.op = "abs" -> AbsOf(X(e), Bs)
      [] e.op = "pow" -> LET r == PowOf(e)[2] IN IF PowNeg(e) THEN Neg(r, Bs) ELSE r
      [] e.op = "popcount" -> Num_(PopCount(X(e)), w)
      [] e.op = "ctlz" -> Num_(IF IsZero(X(e)) THEN 8 * Nd(w) ELSE 8 * Nd(w) - 1 - Log2(X(e), Bs), w)
      [] e.op = "log2" -> Num_(Log2(X(e), Bs), w)
      [] e.op = "prev" -> IF IsZero(X(e)) THEN X(e) ELSE PrevPow2(X(e), Bs)
      [] e.op = "next" -> IF IsPow2(X(e)) THEN X(e) ELSE Add(PrevPow2(X(e), Bs), PrevPow2(X(e), Bs), Bs)
      [] e.op \in {"align", "alignp"} -> Up(X(e), Y(e), Bs)
      [] e.op \in {"down", "downp"} -> Down(X(e), Y(e), Bs)
      [] e.op \in Kilo -> Low(Mul(X(e), Pow2(KiloBits(e.op), 8, Bs), Bs))
\* nothing is said of the least power of two not below zero but that it is 0 or 1
Answer(e, r) == IF e.op = "next" /\ IsZero(X(e)) THEN r \in {X(e), Num_(1, e.w)} ELSE r = Result(e)
=============================================================================
