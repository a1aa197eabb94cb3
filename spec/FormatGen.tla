------------------------------ MODULE FormatGen ------------------------------
(* Calls to be made: formatting with every short format string and number of *)
(* arguments, formatting of seeded values of every type, joining, parsing of *)
(* every short input and of seeded long inputs.                              *)
EXTENDS FormatTable, GenBase
CONSTANTS FSyms, FLen, ASyms, ALen, PSyms, PLen, WSyms, WLen, Types, Seeds, Mode, Names
VARIABLES lab, ctr
vars == <<lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
RECURSIVE Codes(_, _)
\* code words of exactly k symbols
Codes(S, k) == IF k = 0 THEN {0} ELSE {c * 16 + x : c \in Codes(S, k - 1), x \in S}
Words(S, k) == UNION {{<<n, c>> : c \in Codes(S, n)} : n \in 0..k}
FmtOps == {[op |-> "fmt", n |-> w[1], code |-> w[2], k |-> k, t1 |-> (k + w[2]) % 4, t2 |-> (w[2] + 1) % 4, t3 |-> (w[2] \div 2) % 4,
            s1 |-> w[2] % 7, s2 |-> (w[2] \div 3) % 7, s3 |-> (w[2] \div 5) % 7] : w \in Words(FSyms, FLen), k \in 0..3}
CatOps == {[op |-> "cat", k |-> k, n |-> w[1], code |-> w[2], s |-> s] : k \in 0..4, w \in Words(ASyms, ALen), s \in 0..3}
ValOps == {[op |-> "val", t |-> t, s |-> s] : t \in Types, s \in Seeds}
TnOps == {[op |-> "tn", t |-> t] : t \in 0..(Names - 1)}
EnOps == {[op |-> "en", v |-> v] : v \in 0..255}
PiOps == {[op |-> o, n |-> w[1], code |-> w[2], g |-> 0, s |-> 0] : o \in {"pi", "pf"}, w \in Words(PSyms, PLen)}
PsOps == {[op |-> o, n |-> w[1], code |-> w[2], g |-> 0, s |-> 0] : o \in {"ps", "pe", "sk"}, w \in Words(WSyms, WLen)}
GenOps == {[op |-> o, n |-> 0, code |-> 0, g |-> g, s |-> s] : o \in {"pi", "ps", "pe", "sk", "pf"}, g \in 1..5, s \in Seeds}
Ops == FmtOps \cup CatOps \cup ValOps \cup TnOps \cup EnOps \cup PiOps \cup PsOps \cup GenOps
Good(e) == e.op = "fmt" => Accepts(Word(FTab, e.n, e.code), e.k)
Init == lab = [op |-> "init"] /\ ctr = 0
Next == \E e \in Ops : lab' = (IF Good(e) THEN e ELSE [bad |-> 1] @@ e) /\ UNCHANGED ctr
Spec == Init /\ [][Next]_vars
View == ctr
Emit == EmitEdge(<<0>>, lab', <<0>>)

Wide == R(0..999) * 1000 + R(0..999)
RECURSIVE Code(_, _)
Code(S, k) == IF k = 0 THEN 0 ELSE R(S) + 16 * Code(S, k - 1)
\* a format string with exactly k placeholders, as a code
RECURSIVE Fit(_, _, _)
Fit(tries, k, n) == LET c == Code(0..9, n) IN
    IF tries = 0 \/ Accepts(Word(FTab, n, c), k) THEN c ELSE Fit(tries - 1, k, n)
RandomOp(o) ==
    CASE o = "fmt" -> LET n == R(0..6) k == R(0..3) IN
            [op |-> "fmt", n |-> n, code |-> Fit(8, k, n), k |-> k, t1 |-> R(0..3), t2 |-> R(0..3), t3 |-> R(0..3),
             s1 |-> Wide, s2 |-> Wide, s3 |-> Wide]
      [] o = "val" -> [op |-> "val", t |-> R(Types), s |-> Wide]
      [] o = "cat" -> [op |-> "cat", k |-> R(0..4), n |-> R(0..3), code |-> Code(0..9, 3), s |-> Wide]
      [] OTHER -> [op |-> o, n |-> R(0..6), code |-> Code(0..15, 6), g |-> R(0..5), s |-> Wide]
SimNext == \E o \in {R({"fmt", "val", "val2", "cat", "pi", "pf", "ps", "pe", "sk"})} :
            \E e \in {RandomOp(IF o = "val2" THEN "val" ELSE o)} :
              ctr' = ctr + 1 /\ lab' = IF Good(e) THEN e ELSE [op |-> "nop"]
SimEmit == EmitEdge(<<ctr>>, lab', <<ctr'>>)
=============================================================================
