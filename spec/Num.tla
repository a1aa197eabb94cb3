-------------------------------- MODULE Num ---------------------------------
(* Natural numbers as sequences of NL digits to base B, least digit first,   *)
(* so that 64-bit arguments fit TLC's integers. NumDesign shows that these   *)
(* are the arithmetic of the naturals.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Zero(n) == [i \in 1..n |-> 0]
Small(v, n, B) == [i \in 1..n |-> IF i = 1 THEN v % B ELSE IF i = 2 THEN v \div B ELSE 0]
RECURSIVE AddC(_, _, _, _, _), SubC(_, _, _, _, _)
\* sum with carry, as digits and the final carry
AddC(a, b, i, c, B) == IF i > Len(a) THEN <<c>>
    ELSE LET t == a[i] + b[i] + c IN <<t % B>> \o AddC(a, b, i + 1, t \div B, B)
SubC(a, b, i, c, B) == IF i > Len(a) THEN <<c>>
    ELSE LET t == a[i] - b[i] - c IN <<(t + B) % B>> \o SubC(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, B)
Cut(a) == SubSeq(a, 1, Len(a) - 1)
Add(a, b, B) == Cut(AddC(a, b, 1, 0, B))
Carries(a, b, B) == AddC(a, b, 1, 0, B)[Len(a) + 1] = 1
Sub(a, b, B) == Cut(SubC(a, b, 1, 0, B))
Less(a, b, B) == SubC(a, b, 1, 0, B)[Len(a) + 1] = 1
\* a * d + c, of one digit more
RECURSIVE MulRow(_, _, _, _, _), MulAcc(_, _, _, _)
MulRow(a, d, i, c, B) == IF i > Len(a) THEN <<c>>
    ELSE LET t == a[i] * d + c IN <<t % B>> \o MulRow(a, d, i + 1, t \div B, B)
\* the product of a and the digits of b from the j-th on, of all their lengths
MulAcc(a, b, j, B) == IF \A i \in j..Len(b) : b[i] = 0 THEN Zero(Len(a) + Len(b) + 1 - j)
    ELSE LET r == MulRow(a, b[j], 1, 0, B)
             m == <<0>> \o MulAcc(a, b, j + 1, B) IN Add(r \o Zero(Len(m) - Len(r)), m, B)
\* the full product, of twice the length
Mul(a, b, B) == MulAcc(a, b, 1, B)
Low(a) == SubSeq(a, 1, Len(a) \div 2)
High(a) == SubSeq(a, Len(a) \div 2 + 1, Len(a))
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Fits(p) == IsZero(High(p))
\* remainder, bit by bit from the top
RECURSIVE Ones(_), Top(_), Two(_)
Ones(v) == IF v = 0 THEN 0 ELSE (v % 2) + Ones(v \div 2)
Top(v) == IF v = 1 THEN 0 ELSE 1 + Top(v \div 2)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)
Width(B) == CASE B = 2 -> 1 [] B = 4 -> 2 [] B = 16 -> 4 [] B = 256 -> 8 [] B = 65536 -> 16 [] OTHER -> Top(B)
\* 2a + c
RECURSIVE Twice(_, _, _, _)
Twice(a, i, c, B) == IF i > Len(a) THEN <<>> ELSE LET t == 2 * a[i] + c IN <<t % B>> \o Twice(a, i + 1, t \div B, B)
\* position of the highest one, for a # 0
Log2(a, B) == LET i == CHOOSE i \in 1..Len(a) : a[i] # 0 /\ \A j \in i + 1..Len(a) : a[j] = 0 IN (i - 1) * Width(B) + Top(a[i])
\* r < b throughout; both have a digit more than a, so that 2r + 1 fits
Step(a, b, r, i, B) ==
    LET s == Twice(r, 1, (a[(i \div Width(B)) + 1] \div Two(i % Width(B))) % 2, B)
        d == SubC(s, b, 1, 0, B)
    IN IF d[Len(d)] = 1 THEN s ELSE Cut(d)
Mod(a, b, B) == IF Less(a, b, B) THEN a ELSE
    LET n == Log2(a, B)
        w == b \o <<0>>
    IN Cut(FoldLeft(LAMBDA r, i : Step(a, w, r, i, B), Zero(Len(a) + 1), [k \in 1..n + 1 |-> n + 1 - k]))
\* greatest multiple not above, least multiple not below (which may not fit)
Down(x, a, B) == Sub(x, Mod(x, a, B), B)
UpFits(x, a, B) == IsZero(Mod(x, a, B)) \/ ~Carries(Down(x, a, B), a, B)
Up(x, a, B) == IF IsZero(Mod(x, a, B)) THEN x ELSE Add(Down(x, a, B), a, B)
\* bits, for a base that is a power of two
RECURSIVE CountAll(_, _)
CountAll(a, i) == IF i = 0 THEN 0 ELSE Ones(a[i]) + CountAll(a, i - 1)
PopCount(a) == CountAll(a, Len(a))
Pow2(k, n, B) == [i \in 1..n |-> IF i = k \div Width(B) + 1 THEN Two(k % Width(B)) ELSE 0]
IsPow2(a) == PopCount(a) = 1
PrevPow2(a, B) == Pow2(Log2(a, B), Len(a), B)
\* <<fits, power>> by repeated multiplication; e is a small integer
RECURSIVE PowFits(_, _, _)
PowFits(a, e, B) == IF e = 0 THEN <<TRUE, Small(1, Len(a), B)>>
    ELSE LET r == PowFits(a, e - 1, B) IN
         IF ~r[1] THEN r ELSE LET p == Mul(r[2], a, B) IN <<Fits(p), Low(p)>>
\* two's complement
Neg(a, B) == Sub(Zero(Len(a)), a, B)
Negative(a, B) == a[Len(a)] >= B \div 2
AbsOf(a, B) == IF Negative(a, B) THEN Neg(a, B) ELSE a
LessS(a, b, B) == IF Negative(a, B) # Negative(b, B) THEN Negative(a, B) ELSE Less(a, b, B)
=============================================================================
