------------------------------ MODULE VecSpec -------------------------------
(* Vectors, matrices, quaternions and boxes over the integers, where single  *)
(* precision is exact, with the results of division, roots and angles given  *)
(* in thousandths. Matrices are sixteen numbers, column by column.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == 1000
Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF b < a THEN b ELSE a
Max2(a, b) == IF a < b THEN b ELSE a
Named(p, v) == [k \in {p \o ToString(i) : i \in 1..Len(v)} |-> v[CHOOSE i \in 1..Len(v) : p \o ToString(i) = k]]
Args(e, p, n) == [i \in 1..n |-> e[p \o ToString(i)]]
Map2(F(_, _), a, b) == [i \in 1..Len(a) |-> F(a[i], b[i])]
Fill(n, v) == [i \in 1..n |-> v]
RECURSIVE Sum(_)
Sum(a) == IF a = <<>> THEN 0 ELSE Head(a) + Sum(Tail(a))
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
Add(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Scale(a, s) == [i \in 1..Len(a) |-> a[i] * s]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Trunc(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
\* r is num / den in units of 1/s, to within t of them
Quot(r, num, den, s, t) == Abs(r * den - num * s) <= Abs(den) * t
\* r is the square root of n in thousandths
Root(r, n) == r >= 0 /\ (IF r = 0 THEN n = 0 ELSE (r - 1) * (r - 1) <= n * S * S /\ (r + 1) * (r + 1) >= n * S * S)
\* r is c / sqrt(n) in thousandths, n small
OverRoot(r, c, n) == /\ (r > 1 => c > 0) /\ (r < -1 => c < 0)
                     /\ Abs(r * r * n - c * c * S * S) <= n * (3 * Abs(r) + 3)
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= t
Floor4(x) == x \div 4
Ceil4(x) == -((-x) \div 4)
\* ----- matrices
At(m, c, r) == m[4 * (c - 1) + r]
Mat(F(_, _)) == [k \in 1..16 |-> F(((k - 1) \div 4) + 1, ((k - 1) % 4) + 1)]
Ident == Mat(LAMBDA c, r : IF c = r THEN 1 ELSE 0)
ColOf(m, c) == SubSeq(m, 4 * c - 3, 4 * c)
RowOf(m, r) == [c \in 1..4 |-> At(m, c, r)]
Prod(a, b) == Mat(LAMBDA c, r : Dot(RowOf(a, r), ColOf(b, c)))
Times(m, v) == [r \in 1..4 |-> Dot(RowOf(m, r), v)]
Transpose(m) == Mat(LAMBDA c, r : At(m, r, c))
Xyz(v) == SubSeq(v, 1, 3)
\* the matrix without column c and row r, three by three, column by column
Minor(m, c, r) == LET keep(x) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA y : y # x)
                  IN [k \in 1..9 |-> At(m, keep(c)[((k - 1) \div 3) + 1], keep(r)[((k - 1) % 3) + 1])]
Det3(m) == m[1] * (m[5] * m[9] - m[8] * m[6]) - m[4] * (m[2] * m[9] - m[8] * m[3]) + m[7] * (m[2] * m[6] - m[5] * m[3])
Cofactor(m, c, r) == (IF (c + r) % 2 = 0 THEN 1 ELSE -1) * Det3(Minor(m, c, r))
Det(m) == Sum([r \in 1..4 |-> At(m, 1, r) * Cofactor(m, 1, r)])
\* the inverse times the determinant
Adjugate(m) == Mat(LAMBDA c, r : Cofactor(m, r, c))
\* ----- turns, in thousandths. Angles are multiples of thirty degrees
CosT == <<1000, 866, 500, 0, -500, -866, -1000, -866, -500, 0, 500, 866>>
Cos(a) == CosT[(a % 12) + 1]
Sin(a) == CosT[((a + 9) % 12) + 1]
\* a turn by a about axis i, three by three in a matrix
Turn(i, a) == LET j == (i % 3) + 1
                  k == (j % 3) + 1
              IN Mat(LAMBDA c, r : IF c = i /\ r = i THEN S ELSE IF c = 4 /\ r = 4 THEN S
                     ELSE IF (c = j /\ r = j) \/ (c = k /\ r = k) THEN Cos(a)
                     ELSE IF c = j /\ r = k THEN Sin(a) ELSE IF c = k /\ r = j THEN -Sin(a) ELSE 0)
Down(m) == [k \in 1..16 |-> (m[k] + S \div 2) \div S]
\* about z after y after x
Euler(x, y, z) == Down(Prod(Turn(3, z), Down(Prod(Turn(2, y), Turn(1, x)))))
\* the three by three part is a turn: orthogonal, in thousandths, and not a reflection
Axis(m, c) == Xyz(ColOf(m, c))
IsTurn(m, t) == /\ \A i, j \in 1..3 : Abs(Dot(Axis(m, i), Axis(m, j)) - (IF i = j THEN S * S ELSE 0)) <= t * S
                /\ Near([i \in 1..3 |-> Cross(Axis(m, 1), Axis(m, 2))[i] \div S], Axis(m, 3), t)
Affine(m) == At(m, 1, 4) = 0 /\ At(m, 2, 4) = 0 /\ At(m, 3, 4) = 0
\* ----- quaternions x, y, z, w
QMul(a, b) == LET va == Xyz(a)
                  vb == Xyz(b)
              IN Add(Add(Scale(vb, a[4]), Scale(va, b[4])), Cross(va, vb)) \o <<a[4] * b[4] - Dot(va, vb)>>
QConj(a) == <<-a[1], -a[2], -a[3], a[4]>>
\* what q does to v, times the squared length of q
QTurn(q, v) == Xyz(QMul(QMul(q, v \o <<0>>), QConj(q)))
\* ----- boxes: <<>> when nothing is enclosed, otherwise six numbers
Point(b, p) == IF b = <<>> THEN p \o p ELSE [i \in 1..6 |-> IF i <= 3 THEN Min2(b[i], p[i]) ELSE Max2(b[i], p[i - 3])]
Join(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE [i \in 1..6 |-> IF i <= 3 THEN Min2(a[i], b[i]) ELSE Max2(a[i], b[i])]
Corners(b) == IF b = <<>> THEN {} ELSE {<<b[IF i THEN 1 ELSE 4], b[IF j THEN 2 ELSE 5], b[IF k THEN 3 ELSE 6]>> : i, j, k \in BOOLEAN}
RECURSIVE Around(_)
Around(ps) == IF ps = {} THEN <<>> ELSE LET p == CHOOSE p \in ps : TRUE IN Point(Around(ps \ {p}), p)
Image(m, b) == Around({Xyz(Times(m, p \o <<1>>)) : p \in Corners(b)})
Area(b) == IF b = <<>> THEN 0 ELSE LET d == [i \in 1..3 |-> b[i + 3] - b[i]] IN 2 * (d[1] * d[2] + d[2] * d[3] + d[3] * d[1])
\* what is seen of a box
Screen(m, b) ==
    LET ps == {Xyz(Times(m, p \o <<1>>)) : p \in Corners(b)} IN
    IF \A p \in ps : p[3] < 0 THEN <<0, 0, 0, 0>>
    ELSE IF \E p \in ps : p[3] < 0 THEN <<-1, -1, 1, 1>>
    ELSE LET a == Around(ps) IN <<a[1], a[2], a[4], a[5]>>
\* ----- the operations
Dims == <<2, 3, 4, 5, 3, 4, 3, 4, 2, 4, 2>>
Dim(t) == Dims[t]
Flt(t) == t <= 6
Uns(t) == t \in {9, 10}
Ops1 == {"plus", "minus", "times", "over"}
A(e) == Args(e, "a", Dim(e.t))
B(e) == Args(e, "b", Dim(e.t))
C(e) == Args(e, "c", Dim(e.t))
\* the operands of a component-wise operation: two vectors, or a vector and a number on either side
Left(e) == IF e.f = 4 THEN Fill(Dim(e.t), e.s) ELSE A(e)
Right(e) == IF e.f \in {2, 3} THEN Fill(Dim(e.t), e.s) ELSE IF e.f = 4 THEN A(e) ELSE B(e)
M(e) == Args(e, "m", 16)
N(e) == Args(e, "n", 16)
Q(e) == Args(e, "a", 4)
P(e) == Args(e, "b", 4)
V3(e) == Args(e, "a", 3)
W3(e) == Args(e, "b", 3)
U3(e) == Args(e, "c", 3)
V4(e) == Args(e, "a", 4)
Bools(x) == IF x THEN 1 ELSE 0
Half(q) == Dot(q, q) = 4
VecOps == Ops1 \cup {"neg", "abs", "eq", "norm2", "mins", "maxs", "min", "max", "dot", "clamp", "lerp", "norm", "unit", "floor", "ceil", "as", "proj", "make", "parts", "cross"}
MatOps == {"madd", "msub", "mmul", "mscal", "mdiv", "mvec", "mpoint", "mdir", "mt", "minv", "meq", "mconst", "mscale", "mtrans", "mortho", "mproj", "mlook", "mturn", "mytow", "mztow", "meuler"}
QuatOps == {"qmul", "qadd", "qsub", "qneg", "qscal", "qconj", "qinv", "qnorm", "qunit", "qeq", "qmat", "qrot", "qaxis", "qeuler", "qback"}
ScalOps == {"slerp", "sfrac", "ssmooth", "ssign", "sround", "sroot", "srad", "sminmax", "scos", "satan", "sarc", "sexp", "shypot", "spow", "sclamp"}
BoxOps == {"bnew", "bset", "bpoint", "bbox", "bimage", "bscreen"}
Legal(e) ==
    IF (IF e.op \in VecOps THEN Uns(e.t) /\ \E i \in 1..Dim(e.t) : A(e)[i] < 0 \/ B(e)[i] < 0 \/ C(e)[i] < 0 ELSE FALSE) THEN FALSE ELSE
    CASE e.op = "minus" -> Uns(e.t) => \A i \in 1..Dim(e.t) : Left(e)[i] >= Right(e)[i]
      [] e.op = "over" -> \A i \in 1..Dim(e.t) : Right(e)[i] # 0
      [] e.op \in {"neg", "abs"} -> ~Uns(e.t)
      [] e.op = "clamp" -> \A i \in 1..Dim(e.t) : B(e)[i] <= C(e)[i]
      [] e.op \in {"lerp", "norm", "floor", "ceil"} -> Flt(e.t)
      [] e.op = "unit" -> Flt(e.t) /\ Dot(A(e), A(e)) \in 1..150
      [] e.op = "proj" -> Dim(e.t) > 2 /\ Flt(e.t) /\ A(e)[Dim(e.t)] # 0
      [] e.op = "parts" -> Dim(e.t) \in {3, 4}
      [] e.op = "mdiv" -> e.s # 0
      [] e.op = "minv" -> Det(M(e)) # 0
      [] e.op = "mortho" -> e.l # e.r /\ e.b # e.t /\ e.n # e.f
      [] e.op = "mproj" -> e.r # 0
      [] e.op = "mlook" -> LET d == Sub(W3(e), V3(e)) IN Dot(d, d) \in 1..150 /\ Cross(d, U3(e)) # <<0, 0, 0>> /\ Dot(Cross(d, U3(e)), Cross(d, U3(e))) <= 150
      [] e.op \in {"mturn", "qaxis", "mytow", "mztow"} -> Dot(V3(e), V3(e)) \in 1..150
      [] e.op \in {"qinv", "qunit"} -> Dot(Q(e), Q(e)) \in 1..150
      [] e.op \in {"qmat", "qrot"} -> Half(Q(e))
      [] e.op = "cross" -> e.t = 2
      [] e.op \in {"sfrac", "sroot"} -> e.x >= 0
      [] e.op = "srad" -> Abs(e.x) <= IF e.s = 1 THEN 6 ELSE 9
      [] e.op = "sarc" -> e.x \in -2..2 /\ e.y \in -1..1
      [] e.op = "sexp" -> e.x \in -3..3
      [] e.op = "ssmooth" -> e.x < e.y
      [] e.op = "sclamp" -> e.y <= e.z
      [] e.op = "satan" -> e.x \in -1..1 /\ e.y \in -1..1 /\ (e.x # 0 \/ e.y # 0)
      [] e.op \in {"bimage", "bscreen"} -> Affine(M(e)) /\ At(M(e), 4, 4) = 1
      [] OTHER -> TRUE
\* whether r may be the result; x and y are the box before and after
Answer(e, r, x, y) ==
    CASE e.op = "plus" -> r = Add(Left(e), Right(e))
      [] e.op = "minus" -> r = Sub(Left(e), Right(e))
      [] e.op = "times" -> r = Map2(LAMBDA p, q : p * q, Left(e), Right(e))
      [] e.op = "over" -> /\ Len(r) = Dim(e.t)
                          /\ \A i \in 1..Dim(e.t) : IF Flt(e.t) THEN Quot(r[i], Left(e)[i], Right(e)[i], S, 1) ELSE r[i] = S * Trunc(Left(e)[i], Right(e)[i])
      [] e.op = "neg" -> r = Scale(A(e), -1)
      [] e.op = "abs" -> r = [i \in 1..Dim(e.t) |-> Abs(A(e)[i])]
      [] e.op = "eq" -> r = <<Bools(A(e) = B(e)), Bools(A(e) # B(e))>>
      [] e.op = "norm2" -> r = <<Dot(A(e), A(e))>>
      [] e.op = "mins" -> \E i \in 1..Dim(e.t) : r = <<A(e)[i]>> /\ \A j \in 1..Dim(e.t) : A(e)[i] <= A(e)[j]
      [] e.op = "maxs" -> \E i \in 1..Dim(e.t) : r = <<A(e)[i]>> /\ \A j \in 1..Dim(e.t) : A(e)[i] >= A(e)[j]
      [] e.op = "min" -> r = Map2(Min2, A(e), B(e))
      [] e.op = "max" -> r = Map2(Max2, A(e), B(e))
      [] e.op = "dot" -> r = <<Dot(A(e), B(e))>>
      [] e.op = "clamp" -> r = Map2(Min2, Map2(Max2, A(e), B(e)), C(e))
      \* a quarter of the way per step, in quarters
      [] e.op = "lerp" -> r = Add(Scale(A(e), 4), Scale(Sub(B(e), A(e)), e.s))
      [] e.op = "norm" -> Len(r) = 1 /\ Root(r[1], Dot(A(e), A(e)))
      [] e.op = "unit" -> Len(r) = Dim(e.t) /\ \A i \in 1..Dim(e.t) : OverRoot(r[i], A(e)[i], Dot(A(e), A(e)))
      [] e.op = "floor" -> r = [i \in 1..Dim(e.t) |-> Floor4(A(e)[i])]
      [] e.op = "ceil" -> r = [i \in 1..Dim(e.t) |-> Ceil4(A(e)[i])]
      [] e.op = "as" -> r = A(e)
      [] e.op = "proj" -> Len(r) = Dim(e.t) - 1 /\ \A i \in 1..Len(r) : Quot(r[i], A(e)[i], A(e)[Dim(e.t)], S, 1)
      \* default, one value for all, a shorter one and the last, iteration, indexing
      [] e.op = "make" -> r = Fill(Dim(e.t), 0) \o Fill(Dim(e.t), e.s) \o A(e) \o A(e) \o A(e)
      [] e.op = "parts" -> LET a == A(e) IN r = IF Dim(e.t) = 3 THEN <<a[1], a[2], a[2], a[3]>>
                                                ELSE <<a[1], a[2], a[2], a[3], a[3], a[4], a[1], a[2], a[3], a[2], a[3], a[4]>>
      [] e.op = "cross" -> r = Cross(V3(e), W3(e))
      [] e.op = "madd" -> r = Add(M(e), N(e)) \o Add(M(e), Fill(16, e.s))
      [] e.op = "msub" -> r = Sub(M(e), N(e)) \o Sub(M(e), Fill(16, e.s))
      [] e.op = "mmul" -> r = Prod(M(e), N(e))
      [] e.op = "mscal" -> r = Scale(M(e), e.s)
      [] e.op = "mdiv" -> Len(r) = 16 /\ \A i \in 1..16 : Quot(r[i], M(e)[i], e.s, S, 1)
      [] e.op = "mvec" -> r = Times(M(e), V4(e))
      [] e.op = "mpoint" -> r = Xyz(Times(M(e), V3(e) \o <<1>>))
      [] e.op = "mdir" -> r = Xyz(Times(M(e), V3(e) \o <<0>>))
      [] e.op = "mt" -> r = Transpose(M(e))
      [] e.op = "minv" -> LET d == Det(M(e))
                              a == Adjugate(M(e)) IN Len(r) = 16 /\ \A i \in 1..16 : Quot(r[i], a[i], d, S, 1)
      [] e.op = "meq" -> r = <<Bools(M(e) = N(e)), Bools(M(e) # N(e))>>
      [] e.op = "mconst" -> r = Ident \o Ident \o Fill(16, 0) \o Mat(LAMBDA c, w : IF <<c, w>> \in {<<1, 3>>, <<2, 2>>, <<3, 1>>, <<4, 4>>} THEN 1 ELSE 0) \o M(e) \o M(e)
      [] e.op = "mscale" -> r = Mat(LAMBDA c, w : IF c # w THEN 0 ELSE IF c = 4 THEN 1 ELSE V3(e)[c])
      [] e.op = "mtrans" -> r = Mat(LAMBDA c, w : IF c = 4 /\ w < 4 THEN V3(e)[w] ELSE IF c = w THEN 1 ELSE 0)
      \* the near corner to (-1, -1, 0), the far one to (1, 1, 1)
      [] e.op = "mortho" -> LET lo == <<e.l, e.b>>
                                hi == <<e.r, e.t>> IN
            /\ Len(r) = 16
            /\ \A c, w \in 1..4 : LET v == At(r, c, w) IN
               IF c = w /\ c < 3 THEN Quot(v, 2, hi[c] - lo[c], S, 1)
               ELSE IF c = 4 /\ w < 3 THEN Quot(v, -(hi[w] + lo[w]), hi[w] - lo[w], S, 1)
               ELSE IF c = 3 /\ w = 3 THEN Quot(v, -1, e.f - e.n, S, 1)
               ELSE IF c = 4 /\ w = 3 THEN Quot(v, -e.n, e.f - e.n, S, 1)
               ELSE v = IF c = 4 /\ w = 4 THEN S ELSE 0
      \* a view of ninety degrees: depth n / -z, y downwards
      [] e.op = "mproj" -> /\ Len(r) = 16
                           /\ \A k \in 1..16 : IF k = 1 THEN Quot(r[k], 1, e.r, S, 1) ELSE r[k] = IF k = 6 THEN -S ELSE IF k = 15 THEN e.n * S ELSE IF k = 12 THEN -S ELSE 0
      \* turns the line of sight to -z and leaves up above it; the eye goes to the origin
      [] e.op = "mlook" -> LET d == Sub(W3(e), V3(e))
                               side == Cross(d, U3(e)) IN
            /\ Len(r) = 16 /\ IsTurn(r, 8) /\ At(r, 1, 4) = 0 /\ At(r, 2, 4) = 0 /\ At(r, 3, 4) = 0 /\ At(r, 4, 4) = S
            /\ \A i \in 1..3 : OverRoot(-At(r, i, 3), d[i], Dot(d, d)) /\ OverRoot(At(r, i, 1), side[i], Dot(side, side))
            /\ \A i \in 1..3 : Abs(Dot([c \in 1..3 |-> At(r, c, i)], V3(e)) + At(r, 4, i)) <= 4 + Sum([k \in 1..3 |-> Abs(V3(e)[k])])
      \* about an axis: a turn that keeps it, by the angle
      [] e.op \in {"mturn", "qaxis"} ->
            /\ Len(r) = 16 /\ IsTurn(r, 8) /\ Affine(r) /\ At(r, 4, 4) = S /\ At(r, 4, 1) = 0 /\ At(r, 4, 2) = 0 /\ At(r, 4, 3) = 0
            /\ Near(Xyz(Times(r, V3(e) \o <<0>>)), Scale(V3(e), S), Sum([i \in 1..3 |-> Abs(V3(e)[i])]) + 2)
            /\ Abs(r[1] + r[6] + r[11] - S - 2 * Cos(e.s)) <= 4
            \* the direction of the turn: the part that changes sign with it
            /\ LET odd == <<r[7] - r[10], r[9] - r[3], r[2] - r[5]>> IN
               IF Sin(e.s) = 0 THEN Near(odd, <<0, 0, 0>>, 4)
               ELSE (Dot(odd, V3(e)) > 0) = (Sin(e.s) > 0)
            /\ \A i \in 1..3 : V3(e) \in {[k \in 1..3 |-> IF k = i THEN v ELSE 0] : v \in 1..9} => Near(r, Turn(i, e.s), 2)
      [] e.op \in {"mytow", "mztow"} ->
            /\ Len(r) = 16 /\ IsTurn(r, 8) /\ Affine(r) /\ At(r, 4, 4) = S
            /\ \A i \in 1..3 : OverRoot(IF e.op = "mytow" THEN r[4 + i] ELSE -r[8 + i], V3(e)[i], Dot(V3(e), V3(e)))
      \* angles of a turn: r is what they describe
      [] e.op \in {"meuler", "qback"} -> Near(r, Euler(e.x, e.y, e.z), 6)
      [] e.op = "qmul" -> r = QMul(Q(e), P(e))
      [] e.op = "qadd" -> r = Add(Q(e), P(e))
      [] e.op = "qsub" -> r = Sub(Q(e), P(e))
      [] e.op = "qneg" -> r = Scale(Q(e), -1)
      [] e.op = "qscal" -> r = Scale(Q(e), e.s)
      [] e.op = "qconj" -> r = QConj(Q(e)) \o Q(e) \o <<0, 0, 0, 1>>
      [] e.op = "qinv" -> Len(r) = 4 /\ \A i \in 1..4 : Quot(r[i], QConj(Q(e))[i], Dot(Q(e), Q(e)), S, 1)
      [] e.op = "qnorm" -> Len(r) = 2 /\ r[1] = Dot(Q(e), Q(e)) /\ Root(r[2], r[1])
      [] e.op = "qunit" -> Len(r) = 4 /\ \A i \in 1..4 : OverRoot(r[i], Q(e)[i], Dot(Q(e), Q(e)))
      [] e.op = "qeq" -> r = <<Bools(Q(e) = P(e)), Bools(Q(e) # P(e))>>
      \* quaternions of halves, whose matrices are whole
      [] e.op = "qmat" -> r = Mat(LAMBDA c, w : IF c = 4 \/ w = 4 THEN Bools(c = w) ELSE QTurn(Q(e), [i \in 1..3 |-> Bools(i = c)])[w] \div 4)
      [] e.op = "qrot" -> r = [i \in 1..3 |-> QTurn(Q(e), W3(e))[i] \div 4]
      [] e.op = "qeuler" -> Near(r, Euler(e.x, e.y, e.z), 4)
      [] e.op = "slerp" -> r = <<4 * e.x + (e.y - e.x) * e.z>>
      [] e.op = "sfrac" -> r = <<e.x % 4>>
      [] e.op = "ssmooth" -> LET t == Min2(Max2(e.z - e.x, 0), e.y - e.x)
                                 w == e.y - e.x IN Len(r) = 1 /\ Quot(r[1], t * t * (3 * w - 2 * t), w * w * w, S, 1)
      [] e.op = "ssign" -> r = <<IF e.x < 0 THEN -1 ELSE Bools(e.x > 0), Abs(e.x)>>
      \* quarters; halves away from zero
      [] e.op = "sround" -> r = <<Floor4(e.x), Ceil4(e.x), IF e.x < 0 THEN -((-e.x + 2) \div 4) ELSE (e.x + 2) \div 4>>
      [] e.op = "sroot" -> Len(r) = 1 /\ Root(r[1], e.x)
      \* half turns to radians and back, to the precision of the type
      [] e.op = "srad" -> /\ Len(r) = 2
                          /\ IF e.s = 1 THEN Abs(r[1] - (e.x * 314159265 + (e.x * 36) \div 100)) <= 2 /\ r[2] = e.x * 180000000
                             ELSE Abs(r[1] - (e.x * 31415927) \div 10000) <= 1 /\ Abs(r[2] - e.x * 18000) <= 1
      [] e.op = "sminmax" -> LET l == <<e.x, e.y, e.z>> IN Len(r) = 4 /\ r = <<Min2(e.x, e.y), Max2(e.x, e.y), Min2(Min2(e.x, e.y), e.z), Max2(Max2(e.x, e.y), e.z)>>
      [] e.op = "scos" -> /\ Len(r) = 3 /\ Near(<<r[1], r[2]>>, <<Cos(e.x), Sin(e.x)>>, 1)
                          /\ (Cos(e.x) # 0 => Abs(r[3] * Cos(e.x) - Sin(e.x) * S) <= 3 * S)
      \* in thousandths of degrees: of the point (x, y); of halves
      [] e.op = "satan" -> Near(r, <<S * (IF e.y = 0 THEN (IF e.x < 0 THEN 180 ELSE 0) ELSE e.y * (90 - 45 * e.x))>>, 1)
      [] e.op = "sarc" -> Near(r, <<S * <<180, 120, 90, 60, 0>>[e.x + 3], S * <<-90, -30, 0, 30, 90>>[e.x + 3], S * 45 * e.y>>, 1)
      [] e.op = "sexp" -> Near(r, <<<<50, 135, 368, 1000, 2718, 7389, 20086>>[e.x + 4]>>, 1)
      [] e.op = "shypot" -> Len(r) = 1 /\ Root(r[1], e.x * e.x + e.y * e.y)
      [] e.op = "spow" -> r = <<e.x ^ e.y>>
      [] e.op = "sclamp" -> r = <<Min2(Max2(e.x, e.y), e.z)>>
      [] e.op \in BoxOps ->
            r = (IF y = <<>> THEN <<1, 0>> ELSE <<0, Area(y)>> \o y \o [i \in 1..3 |-> y[i] + y[i + 3]])
                \o (IF e.op = "bscreen" THEN Screen(M(e), x) ELSE <<>>)
Box(e, x) ==
    CASE e.op = "bnew" -> <<>>
      [] e.op = "bset" -> Join(V3(e) \o V3(e), W3(e) \o W3(e))
      [] e.op = "bpoint" -> Point(x, V3(e))
      [] e.op = "bbox" -> Join(x, IF e.s = 0 THEN <<>> ELSE Join(V3(e) \o V3(e), W3(e) \o W3(e)))
      [] e.op = "bimage" -> Image(M(e), x)
      [] OTHER -> x
=============================================================================
