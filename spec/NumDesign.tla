------------------------------ MODULE NumDesign -----------------------------
(* Every number of NL digits: the operators of Num are those of the integers *)
(* and what they say about alignment, powers and bits is what is meant.      *)
EXTENDS Num
CONSTANTS NL, B
VARIABLES x, y
vars == <<x, y>>
RECURSIVE Val(_), ToPow(_, _)
Val(a) == IF a = <<>> THEN 0 ELSE a[1] + B * Val(Tail(a))
ToPow(b, e) == IF e = 0 THEN 1 ELSE b * ToPow(b, e - 1)
M == ToPow(B, NL)
Numbers == [1..NL -> 0..B - 1]
\* two's complement value
SVal(a) == IF Val(a) >= M \div 2 THEN Val(a) - M ELSE Val(a)
Init == x \in Numbers /\ y = Zero(NL)
Next == x' = x /\ y' \in Numbers
Spec == Init /\ [][Next]_vars
a == Val(x)
b == Val(y)
Arith == /\ Val(Add(x, y, B)) = (a + b) % M /\ Carries(x, y, B) = (a + b >= M)
         /\ Val(Sub(x, y, B)) = (a - b + M) % M /\ Less(x, y, B) = (a < b)
         /\ Val(Mul(x, y, B)) = a * b /\ Fits(Mul(x, y, B)) = (a * b < M)
         /\ LessS(x, y, B) = (SVal(x) < SVal(y))
         /\ (b # 0 => Val(Mod(x, y, B)) = a % b)
\* least multiple not below, greatest not above
Align == b # 0 =>
    /\ LET d == Val(Down(x, y, B)) IN d <= a /\ d % b = 0 /\ a - d < b
    /\ LET exists == \E m \in a..(M - 1) : m % b = 0 IN
       /\ UpFits(x, y, B) = exists
       /\ exists => LET u == Val(Up(x, y, B)) IN u >= a /\ u % b = 0 /\ u - a < b
\* the way the code computes it, for powers of two and in general
ModPow(v) == v % M
Code == b # 0 /\ UpFits(x, y, B) =>
    /\ (IF a % b = 0 THEN a ELSE a + (b - (a % b))) = Val(Up(x, y, B))
    /\ IsPow2(y) => LET s == ModPow(a + b - 1) IN s - (s % b) = Val(Up(x, y, B))
Bits == /\ PopCount(x) = Cardinality({i \in 0..NL * Width(B) - 1 : (a \div ToPow(2, i)) % 2 = 1})
        /\ IsPow2(x) = (\E i \in 0..NL * Width(B) - 1 : a = ToPow(2, i))
        /\ (a # 0 => /\ ToPow(2, Log2(x, B)) <= a /\ a < ToPow(2, Log2(x, B) + 1)
                     /\ Val(PrevPow2(x, B)) = ToPow(2, Log2(x, B)))
Powers == \A e \in 0..3 : /\ PowFits(x, e, B)[1] = (ToPow(a, e) < M \/ (e # 0 /\ a = 0))
                          /\ (PowFits(x, e, B)[1] => Val(PowFits(x, e, B)[2]) = ToPow(a, e))
=============================================================================
