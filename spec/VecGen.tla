------------------------------- MODULE VecGen -------------------------------
(* Every angle, axis, half quaternion and small box with every transform     *)
(* among a few; and random small arguments for everything.                   *)
EXTENDS VecSpec, GenBase
CONSTANTS Deep
VARIABLES lab, ctr, box
vars == <<lab, ctr, box>>
R(X) == RandomElement({z \in X : ctr >= 0})
T3(v) == Named("a", v)
Dirs == {<<x, y, z>> : x, y, z \in -1..1} \ {<<0, 0, 0>>}
Angles == -12..12
Units == {q \in [1..4 -> -2..2] : Dot(q, q) = 4}
One(o, t, f, s, a, b, c) == [op |-> o, t |-> t, f |-> f, s |-> s] @@ Named("a", a) @@ Named("b", b) @@ Named("c", c)
A5(p) == <<p, -p, 3 * p - 2, 5, p - 4>>
B5(p) == <<2, p, -p, 3, 1>>
Q_(o, s, a, b) == [op |-> o, s |-> s] @@ Named("a", a) @@ Named("b", b)
Ops(g) ==
    CASE g = 1 -> {[op |-> o, s |-> a] @@ T3(d) : o \in {"mturn", "qaxis"}, a \in Angles, d \in Dirs}
      [] g = 2 -> {[op |-> o] @@ T3(Scale(d, k)) : o \in {"mytow", "mztow"}, d \in Dirs, k \in {1, 3}} \cup {[op |-> o] @@ T3(d) : o \in {"mytow", "mztow"}, d \in {<<1, 7, 2>>, <<0, -9, 1>>, <<3, -2, 5>>}}
      [] g = 3 -> {[op |-> o, x |-> x, y |-> y, z |-> z] : o \in IF Deep THEN {"qeuler", "meuler", "qback"} ELSE {"qeuler", "qback"}, x, y, z \in (IF Deep THEN -6..6 ELSE {-6, -4, -3, -1, 0, 3, 5, 6})}
      [] g = 4 -> {Q_("qmat", 0, q, q) : q \in Units} \cup {Q_("qrot", 0, q, d \o <<0>>) : q \in Units, d \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<3, -2, 7>>}}
      [] g = 5 -> {[op |-> "mlook"] @@ Named("a", p) @@ Named("b", Add(p, Scale(d, k))) @@ Named("c", u) : p \in {<<0, 0, 0>>, <<1, -2, 3>>}, d \in Dirs, k \in {1, 2}, u \in {<<0, 1, 0>>, <<0, 0, 2>>, <<-1, 1, 0>>}}
      [] g = 6 -> UNION {{[op |-> "scos", s |-> k, x |-> a] : a \in Angles} \cup {[op |-> o, s |-> k, x |-> x, y |-> y] : o \in {"satan", "sarc"}, x \in -2..2, y \in -1..1}
                  \cup {[op |-> "sround", s |-> k, x |-> x] : x \in -20..20} \cup {[op |-> o, s |-> k, x |-> x] : o \in {"ssign", "sexp"}, x \in -3..3} \cup {[op |-> "srad", s |-> k, x |-> x] : x \in -9..9}
                  \cup {[op |-> "sroot", s |-> k, x |-> x] : x \in 0..60} \cup {[op |-> "shypot", s |-> k, x |-> x, y |-> y] : x, y \in -6..6} \cup {[op |-> "spow", s |-> k, x |-> x, y |-> y] : x \in 1..5, y \in 0..5}
                  \cup {[op |-> "sminmax", s |-> k, x |-> x, y |-> y, z |-> z] : x, y, z \in -2..2} : k \in 0..1}
      [] g = 7 -> {One(o, t, 0, 0, A5(p), B5(p), B5(p)) : o \in {"neg", "abs", "floor", "ceil", "norm", "unit", "norm2", "mins", "maxs", "parts", "proj", "as"}, t \in 1..11, p \in {-3, -1, 2, 6}}
                  \cup {One("make", t, 0, s, A5(s), B5(s), B5(s)) : t \in 1..11, s \in 4..5} \cup {[op |-> "mconst"] @@ Named("m", [i \in 1..16 |-> i * i - 20])}
      [] g = 8 -> {One(o, t, f, s, [i \in 1..5 |-> 7 - i], [i \in 1..5 |-> i], [i \in 1..5 |-> i]) : o \in Ops1, t \in 1..11, f \in 0..4, s \in {1, 2, 7}}
      [] g = 9 -> {One(o, t, 0, 1, [i \in 1..5 |-> IF i = k THEN v ELSE i], [i \in 1..5 |-> i], [i \in 1..5 |-> i + 1]) : o \in {"eq", "min", "max", "dot", "clamp"}, t \in 1..11, k \in 1..5, v \in {0, 9}}
      [] g = 10 -> {[op |-> "meq"] @@ Named("m", [i \in 1..16 |-> i]) @@ Named("n", [i \in 1..16 |-> IF i = k THEN v ELSE i]) : k \in 1..16, v \in {1, 16, 20}}
Init == lab = [op |-> "init"] /\ ctr = 0 /\ box = <<>>
Next == /\ UNCHANGED box
        /\ IF ctr = 0 THEN ctr' \in 1..10 /\ lab' = [op |-> "nop"]
           ELSE \E e \in Ops(ctr) : Legal(e) /\ lab' = e /\ UNCHANGED ctr
Spec == Init /\ [][Next]_vars
View_ == ctr
Emit == EmitEdge(ctr, lab', ctr')
\* random arguments
Num(k) == IF k <= 3 THEN R(-2..2) ELSE IF k <= 6 THEN R(-9..9) ELSE R(-40..40)
Vec(n, k) == [i \in 1..n |-> Num(k)]
Pos(n) == [i \in 1..n |-> R(0..20)]
Small(n) == [i \in 1..n |-> R(-5..5)]
Aff == LET x == [i \in 1..16 |-> R(-2..2)] IN [i \in 1..16 |-> IF i = 16 THEN 1 ELSE IF i % 4 = 0 THEN 0 ELSE IF i > 12 THEN R(-9..9) ELSE x[i]]
Pick(o) ==
    IF o \in VecOps THEN
        LET t == IF o = "cross" THEN 2 ELSE R(1..11)
            k == IF o \in {"norm", "unit", "ssmooth"} THEN 4 ELSE R(1..8) IN
        IF Uns(t) \/ o = "unit" THEN One(o, t, R(0..4), R(1..9), IF o = "unit" THEN Small(5) ELSE Pos(5), Pos(5), Pos(5))
        ELSE One(o, t, R(0..4), Num(k), Vec(5, k), IF R(1..3) = 1 THEN Small(5) ELSE Vec(5, k), Vec(5, k))
    ELSE IF o \in MatOps THEN
        [op |-> o, s |-> IF o = "mturn" THEN R(Angles) ELSE R(-9..9), l |-> R(-9..0), r |-> R(1..9), b |-> R(-9..2), t |-> R(3..9), n |-> R(1..9), f |-> R(10..20), x |-> R(Angles), y |-> R(Angles), z |-> R(Angles)]
        @@ Named("m", IF o = "minv" THEN [i \in 1..16 |-> R(-2..2)] ELSE Vec(16, R(1..6))) @@ Named("w", Small(4))
        @@ Named("a", Small(4)) @@ Named("b", Small(3)) @@ Named("c", Small(3))
    ELSE IF o \in QuatOps THEN
        [op |-> o, s |-> IF o = "qaxis" THEN R(Angles) ELSE R(-9..9), x |-> R(Angles), y |-> R(Angles), z |-> R(Angles)]
        @@ Named("a", IF o \in {"qmat", "qrot"} THEN R(Units) ELSE IF o \in {"qunit", "qinv", "qaxis"} THEN Small(4) ELSE Vec(4, R(1..6))) @@ Named("b", Vec(4, R(1..6)))
    ELSE IF o \in ScalOps THEN [op |-> o, s |-> R(0..1), x |-> R(-9..9), y |-> R(-9..9), z |-> R(-9..9)]
    ELSE [op |-> o, s |-> R(0..5)] @@ Named("a", Small(3)) @@ Named("b", Small(3)) @@ Named("m", Aff)
\* the second matrix, at times the same as the first
Second(e) == IF "m1" \in DOMAIN e THEN Named("n", IF R(1..3) = 1 THEN M(e) ELSE [i \in 1..16 |-> R(-3..3)]) ELSE [z \in {} |-> 0]
Safe(e) == e.op \notin {"spow", "scos"} /\ (e.op = "mortho" => e.l < e.r /\ e.b < e.t /\ e.n < e.f)
SimNext ==
    /\ ctr' = ctr + 1
    /\ \E o \in {R({"v", "v", "m", "q", "s", "b", "b2"})} :
       \E p \in {R(IF o = "v" THEN VecOps ELSE IF o = "m" THEN MatOps ELSE IF o = "q" THEN QuatOps ELSE IF o = "s" THEN ScalOps ELSE BoxOps)} :
       \E e0 \in {Pick(p)} : \E e \in {IF p = "mortho" THEN e0 ELSE e0 @@ Second(e0)} :
       IF (IF Safe(e) THEN Legal(e) ELSE FALSE) /\ (p = "bscreen" => box # <<>>) /\ (p \in BoxOps => \A v \in {Box(e, box)[i] : i \in 1..Len(Box(e, box))} : Abs(v) < 1000)
       THEN lab' = e /\ box' = (IF p \in BoxOps THEN Box(e, box) ELSE box)
       ELSE lab' = [op |-> "nop"] /\ UNCHANGED box
SimEmit == EmitEdge(<<ctr>>, lab', <<ctr'>>)
=============================================================================
