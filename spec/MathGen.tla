------------------------------- MODULE MathGen ------------------------------
(* Arguments at and around every power of two for every helper, and random   *)
(* ones; those without a meaning are left out.                               *)
EXTENDS MathSpec, GenBase
CONSTANTS Ks, Few
VARIABLES lab, ctr
vars == <<lab, ctr>>
R(S) == RandomElement({z \in S : ctr >= 0})
Limb == 65536
Around(k, d) == IF d >= 0 THEN Add(Pow2(k, 4, Limb), Small(d, 4, Limb), Limb) ELSE Sub(Pow2(k, 4, Limb), Small(-d, 4, Limb), Limb)
Points(K) == {Around(k, d) : k \in K, d \in {-1, 0, 1}} \cup {Zero(4)} \cup {Neg(Around(k, 0), Limb) : k \in K}
One == Small(1, 4, Limb)
Lab(o, w, a, b, c, n) == [op |-> o, w |-> w, n |-> n, a1 |-> a[1], a2 |-> a[2], a3 |-> a[3], a4 |-> a[4],
                          b1 |-> b[1], b2 |-> b[2], b3 |-> b[3], b4 |-> b[4], c1 |-> c[1], c2 |-> c[2], c3 |-> c[3], c4 |-> c[4]]
Consts == {Small(v, 4, Limb) : v \in {3, 5, 6, 10, 12, 24, 1000}}
Ops(g) ==
    CASE g \in 1..5 -> {Lab(<<"popcount", "ctlz", "log2", "prev", "next">>[g], w, a, One, One, 0) : w \in {3, 4}, a \in Points(0..63)}
      [] g \in 6..9 -> {Lab(<<"align", "down", "alignp", "downp">>[g - 5], w, a, b, One, 0) : w \in {3, 4}, a \in Points(Ks), b \in Points(Ks) \cup Consts}
      [] g \in 10..11 -> {Lab(<<"min", "max">>[g - 9], w, a, b, One, 0) : w \in 1..8, a \in Points(Few), b \in Points(Few)}
      [] g = 12 -> {Lab("limits", w, One, One, One, 0) : w \in 1..8} \cup {Lab(o, 4, a, One, One, 0) : o \in Kilo, a \in Points(Ks)}
                   \cup {Lab("abs", w, a, One, One, 0) : w \in {7, 8}, a \in Points(0..63)}
      [] g = 13 -> {Lab("pow", w, a, One, One, n) : w \in 1..8, a \in Points(Few), n \in 0..3}
      [] g \in 14..17 -> {Lab("pow", w, Small(v, 4, Limb), One, One, n) : w \in {g - 13, g - 9}, v \in 0..12, n \in 0..64}
      [] g \in 18..21 -> {Lab("pow", g - 13, Neg(Small(v, 4, Limb), Limb), One, One, n) : v \in 1..12, n \in 0..64}
Init == lab = [op |-> "init"] /\ ctr = 0
Next == IF ctr = 0 THEN ctr' \in 1..21 /\ lab' = [op |-> "nop"]
        ELSE \E e \in Ops(ctr) : Legal(e) /\ lab' = e /\ UNCHANGED ctr
Spec == Init /\ [][Next]_vars
View_ == ctr
Emit == EmitEdge(ctr, lab', ctr')
\* random arguments: arbitrary, with many equal digits, or near a power of two
Limb_ == R(0..255) * 256 + R(0..255)
Arbitrary == <<Limb_, Limb_, Limb_, Limb_>>
Short(k) == [i \in 1..4 |-> IF i <= k THEN Limb_ ELSE 0]
Near == Add(Around(R(0..63), 0), Small(R(0..40), 4, Limb), Limb)
Pick(c) == IF c <= 2 THEN Arbitrary ELSE IF c <= 4 THEN Short(R(1..4)) ELSE IF c <= 6 THEN Near ELSE IF c = 7 THEN Sub(Near, Small(R(0..60), 4, Limb), Limb) ELSE Neg(Short(R(1..4)), Limb)
SimNext ==
    /\ ctr' = ctr + 1
    /\ \E a \in {Pick(R(1..8))}, b0 \in {Pick(R(1..8))}, c0 \in {Pick(R(1..8))} :
       \E b \in {IF R(1..6) = 1 THEN a ELSE b0}, c \in {IF R(1..6) = 1 THEN a ELSE c0} :
       \E o \in {R({"min", "max", "minl", "maxl", "clamp", "abs", "pow", "popcount", "ctlz", "log2", "prev", "next", "align", "down", "alignp", "downp", "kb", "mb", "gb"})} :
       \E w \in {IF o \in Kilo THEN 4 ELSE IF o = "abs" THEN R({7, 8}) ELSE IF o \in Unary \cup Aligns THEN R({3, 4}) ELSE R(1..8)}, n \in {R(0..9)} :
       \E b2 \in {IF o \in {"alignp", "downp"} THEN Pow2(R(0..63), 4, Limb) ELSE IF o \in {"align", "down"} /\ R(1..2) = 1 THEN Short(1) ELSE b},
          a2 \in {IF o = "pow" THEN IF R(1..2) = 1 THEN Small(R(0..300), 4, Limb) ELSE Neg(Small(R(0..300), 4, Limb), Limb) ELSE a} :
       LET e == Lab(o, w, a2, b2, c, n) IN
       lab' = IF Legal(e) THEN e ELSE [op |-> "nop"]
SimEmit == EmitEdge(ctr, lab', ctr')
=============================================================================
