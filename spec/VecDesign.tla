------------------------------ MODULE VecDesign -----------------------------
(* The formulas the library uses are what the operations mean: the inverse   *)
(* by blocks, the box of a transformed box, the matrix of a quaternion.      *)
EXTENDS VecSpec
CONSTANTS Under, Over, Part, Steps
Entries == -Under..Over
VARIABLES m, q, b, step, lane
vars == <<m, q, b, step, lane>>
\* two by two matrices <<x, y, z, w>> as the code multiplies them
Sw(v, i) == <<v[i[1]], v[i[2]], v[i[3]], v[i[4]]>>
Pw(u, v) == Map2(LAMBDA x, y : x * y, u, v)
Mul2(u, v) == Add(Pw(u, Sw(v, <<1, 4, 1, 4>>)), Pw(Sw(u, <<2, 1, 4, 3>>), Sw(v, <<3, 2, 3, 2>>)))
AdjMul(u, v) == Sub(Pw(Sw(u, <<4, 4, 1, 1>>), v), Pw(Sw(u, <<2, 2, 3, 3>>), Sw(v, <<3, 4, 1, 2>>)))
MulAdj(u, v) == Sub(Pw(u, Sw(v, <<4, 1, 4, 1>>)), Pw(Sw(u, <<2, 1, 4, 3>>), Sw(v, <<3, 2, 3, 2>>)))
Blocks ==
    LET p(c) == ColOf(m, c)
        bA == SubSeq(p(1), 1, 2) \o SubSeq(p(2), 1, 2)
        bB == SubSeq(p(1), 3, 4) \o SubSeq(p(2), 3, 4)
        bC == SubSeq(p(3), 1, 2) \o SubSeq(p(4), 1, 2)
        bD == SubSeq(p(3), 3, 4) \o SubSeq(p(4), 3, 4)
        det(x) == x[1] * x[4] - x[2] * x[3]
        dc == AdjMul(bD, bC)
        ab == AdjMul(bA, bB)
        sign(v) == <<v[1], -v[2], -v[3], v[4]>>
        X == sign(Sub(Scale(bA, det(bD)), Mul2(bB, dc)))
        W == sign(Sub(Scale(bD, det(bA)), Mul2(bC, ab)))
        Y == sign(Sub(Scale(bC, det(bB)), MulAdj(bD, ab)))
        Z == sign(Sub(Scale(bB, det(bC)), MulAdj(bA, dc)))
        d == det(bA) * det(bD) + det(bB) * det(bC) - Dot(ab, Sw(dc, <<1, 3, 2, 4>>))
    IN <<d, <<X[4], X[2], Y[4], Y[2], X[3], X[1], Y[3], Y[1], Z[4], Z[2], W[4], W[2], Z[3], Z[1], W[3], W[1]>>>>
Inverse == /\ Blocks = <<Det(m), Adjugate(m)>>
           /\ Prod(m, Adjugate(m)) = Scale(Ident, Det(m))
\* the box of the image, from the translation outwards
Arvo ==
    LET lo == SubSeq(b, 1, 3)
        hi == SubSeq(b, 4, 6)
        side(i, pick(_, _)) == At(m, 4, i) + Sum([j \in 1..3 |-> pick(At(m, j, i) * lo[j], At(m, j, i) * hi[j])])
    IN [i \in 1..6 |-> IF i <= 3 THEN side(i, Min2) ELSE side(i - 3, Max2)]
Boxes == Arvo = Image([k \in 1..16 |-> IF k % 4 = 0 THEN (IF k = 16 THEN 1 ELSE 0) ELSE m[k]], b)
\* x, y, z, w; for unit length n = 1, otherwise everything times n
Unit == LET x == q[1]
            y == q[2]
            z == q[3]
            w == q[4]
            n == Dot(q, q)
            cols == <<<<n - 2 * y * y - 2 * z * z, 2 * x * y + 2 * z * w, 2 * x * z - 2 * y * w>>,
                      <<2 * x * y - 2 * z * w, n - 2 * x * x - 2 * z * z, 2 * y * z + 2 * x * w>>,
                      <<2 * x * z + 2 * y * w, 2 * y * z - 2 * x * w, n - 2 * x * x - 2 * y * y>>>>
            e(i) == [k \in 1..3 |-> IF k = i THEN 1 ELSE 0]
        IN \A i \in 1..3 : QTurn(q, e(i)) = cols[i]
\* a quaternion turns, and turns compose
Turns == \A i, j \in 1..3 :
    LET e(k) == [c \in 1..3 |-> IF c = k THEN 1 ELSE 0]
        n == Dot(q, q)
        p == <<q[2], q[4], q[1], q[3]>>
    IN /\ Dot(QTurn(q, e(i)), QTurn(q, e(j))) = IF i = j THEN n * n ELSE 0
       /\ QTurn(QMul(p, q), e(i)) = QTurn(p, QTurn(q, e(i)))
Init == /\ step = 0 /\ lane = 0 /\ m = Ident /\ q = <<0, 0, 0, 1>> /\ b = <<0, 0, 0, 0, 0, 0>>
R(X) == RandomElement({x \in X : step >= 0})
\* Part 0: random matrices; 1: every quaternion; 2: every box of one transformation
Next == /\ step' = step + 1
        /\ CASE Part = 0 -> /\ step < Steps /\ lane' \in (IF lane = 0 THEN 1..8 ELSE {lane})
                            /\ \E lo \in {[k \in 1..3 |-> R(-3..3)]} :
                               /\ m' = [k \in 1..16 |-> R(Entries)] /\ b' = lo \o [k \in 1..3 |-> lo[k] + R(0..3)]
                               /\ q' = [k \in 1..4 |-> R(Entries)]
             [] Part = 1 -> step = 0 /\ q' \in [1..4 -> Entries] /\ UNCHANGED <<m, b, lane>>
             [] OTHER -> /\ step = 0 /\ UNCHANGED <<q, lane>>
                         /\ \E x, y, z, t \in Entries : m' = Mat(LAMBDA c, r : IF c = 4 /\ r = 4 THEN 1 ELSE IF r = 4 THEN 0 ELSE IF r > 1 THEN (IF c = r THEN 1 ELSE 0) ELSE <<x, y, z, t>>[c])
                         /\ b' \in {<<l, u, -1, h, u + 1, v>> : l \in -1..0, h \in 0..1, u \in -1..1, v \in -1..1}
Spec == Init /\ [][Next]_vars
=============================================================================
