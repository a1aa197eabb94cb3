---------------------------- MODULE ReflectSpec ----------------------------
(* What reflection says about a type, and what it does to an object.        *)
(* A record is its declaration: the members in order, each with a kind, and *)
(* the list of those that are registered. The object is the sequence of its *)
(* scalars. Walking visits every registered member once, in the registered  *)
(* order, with its name, kind, place, size and value; writing to a visited  *)
(* member changes this member of the object and nothing else.               *)
EXTENDS Integers, Sequences, FiniteSets

\* n name, k kind, r record, m number of elements, e kind of the elements (or which enumeration), c constant
S(n, k) == [n |-> n, k |-> k, r |-> 0, m |-> 1, e |-> k, c |-> FALSE]
K(n, k) == [S(n, k) EXCEPT !.c = TRUE]
Rec(n, r) == [S(n, "record") EXCEPT !.r = r]
Arr(n, k, m) == [S(n, "array") EXCEPT !.m = m, !.e = k]
\* bytes that are not registered; as a scalar: their sum
Pad(n, m) == [S(n, "pad") EXCEPT !.m = m]
En(n, t) == [S(n, "enum") EXCEPT !.e = t]

Members == <<
 <<S("x", "i32")>>,
 <<S("a", "u8"), S("b", "u64"), S("c", "i16"), S("d", "f32"), S("e", "bool"), S("f", "char")>>,
 <<S("a", "i32"), S("b", "i8"), S("c", "i64"), S("d", "u16")>>,
 <<S("tag", "u8"), Rec("in", 2), Rec("one", 1)>>,
 <<S("h", "i8"), Arr("v", "i32", 3), S("t", "u16")>>,
 <<S("hidden", "u32")>>,
 <<S("first", "i64"), S("second", "u32")>>,
 <<S("first", "u8"), S("second", "u32")>>,
 <<S("b", "bool"), S("p", "pointer"), S("q", "pointer"), En("e", "colour"), En("w", "wide"), S("z", "f64")>>,
 <<S("a", "u16"), Rec("b", 2)>>,
 <<S("a", "i32"), K("k", "i16"), S("z", "u8")>>,
 <<S("f", "bool"), Rec("n", 4), Rec("w", 5)>>,
 <<S("a", "i8"), S("b", "i16"), S("c", "i32"), S("d", "i64"), S("e", "u8"), S("f", "u16"), S("g", "u32"),
   S("h", "u64"), S("i", "f64"), S("j", "f32"), S("k", "char"), S("l", "bool")>>,
 <<S("a", "u8"), Pad("p1", 61), S("b", "i32"), Pad("p2", 250), S("c", "i16"), Arr("v", "u8", 3), Pad("p3", 70001), S("d", "i64"), Rec("m", 2)>> >>
\* positions of the registered members, in the order of registration
Listed(r) == CASE r = 3 -> <<3, 1>> [] r = 6 -> <<>> [] r = 10 -> <<2, 1>> [] r = 14 -> <<1, 3, 5, 6, 8, 9>>
               [] OTHER -> [i \in 1..Len(Members[r]) |-> i]
Records == DOMAIN Members

ScalarSize(k) == CASE k \in {"char", "i8", "u8", "bool", "colour", "pad"} -> 1 [] k \in {"i16", "u16"} -> 2
                   [] k \in {"i32", "u32", "f32"} -> 4 [] OTHER -> 8

RECURSIVE AlignOf(_), SizeOf(_), OffOf(_, _), RecAlign(_, _)
RecAlign(r, i) == IF i = 0 THEN 1 ELSE LET a == AlignOf(Members[r][i]) b == RecAlign(r, i - 1) IN IF a > b THEN a ELSE b
AlignOf(f) == IF f.k = "record" THEN RecAlign(f.r, Len(Members[f.r])) ELSE ScalarSize(f.e)
RoundUp(x, a) == ((x + a - 1) \div a) * a
\* place of member i when the members are laid out one after another, each at its alignment
OffOf(r, i) == RoundUp(IF i = 1 THEN 0 ELSE OffOf(r, i - 1) + SizeOf(Members[r][i - 1]), AlignOf(Members[r][i]))
SizeOf(f) == IF f.k = "record" THEN LET l == Len(Members[f.r]) IN RoundUp(OffOf(f.r, l) + SizeOf(Members[f.r][l]), RecAlign(f.r, l))
             ELSE f.m * ScalarSize(f.e)

\* scalars: how many a member has, and the kind of each scalar of a record
RECURSIVE Count(_), CountTo(_, _), Kinds(_), KindsTo(_, _)
Count(f) == CASE f.k = "record" -> CountTo(f.r, Len(Members[f.r])) [] f.k = "pad" -> 1 [] OTHER -> f.m
CountTo(r, i) == IF i = 0 THEN 0 ELSE CountTo(r, i - 1) + Count(Members[r][i])
KindsTo(r, i) == IF i = 0 THEN <<>> ELSE KindsTo(r, i - 1) \o Kinds(Members[r][i])
Kinds(f) == IF f.k = "record" THEN KindsTo(f.r, Len(Members[f.r])) ELSE IF f.k = "pad" THEN <<"pad">> ELSE [j \in 1..f.m |-> f.e]
Scalars(r) == CountTo(r, Len(Members[r]))
\* an object of zero bytes: the enumerator of value 0 is number 1 of its enumeration
Zero(r) == LET ks == KindsTo(r, Len(Members[r])) IN [i \in 1..Scalars(r) |-> IF ks[i] = "wide" THEN 1 ELSE 0]

Norm(k, v) == CASE k = "bool" -> v % 2 [] k = "colour" -> v % 3 [] k = "wide" -> v % 4 [] OTHER -> v

\* the scalars a write through member f (whose scalars begin after b) reaches: the registered, mutable ones
RECURSIVE Reach(_, _), ReachTo(_, _, _)
Reach(f, b) == IF f.c THEN {} ELSE IF f.k = "record" THEN ReachTo(f.r, Len(Listed(f.r)), b) ELSE (b + 1)..(b + f.m)
ReachTo(r, i, b) == IF i = 0 THEN {} ELSE LET p == Listed(r)[i] IN ReachTo(r, i - 1, b) \cup Reach(Members[r][p], b + CountTo(r, p - 1))

\* the visits of a walk: records of member, place, first scalar and depth
RECURSIVE Visits(_, _, _, _, _, _)
Visits(r, i, off, b, d, deep) ==
    IF i > Len(Listed(r)) THEN <<>>
    ELSE LET p == Listed(r)[i]
             f == Members[r][p]
             o == off + OffOf(r, p)
             c == b + CountTo(r, p - 1) IN
         <<[f |-> f, o |-> o, b |-> c, d |-> d]>>
         \o (IF deep /\ f.k = "record" THEN Visits(f.r, 1, o, c, d + 1, deep) ELSE <<>>)
         \o Visits(r, i + 1, off, b, d, deep)
Walk(r, deep) == Visits(r, 1, 0, 0, 0, deep)

\* the object after visit number w has written v
Wrote(r, obj, vis, w, v) ==
    IF w \notin 1..Len(vis) THEN obj
    ELSE LET reach == Reach(vis[w].f, vis[w].b) ks == KindsTo(r, Len(Members[r])) IN
         [i \in 1..Len(obj) |-> IF i \in reach THEN Norm(ks[i], v) ELSE obj[i]]
\* what visit number i shows: earlier visits may have written
Shown(vis, i, const, before, after, w) ==
    LET x == vis[i] src == IF w > 0 /\ w < i THEN after ELSE before IN
    [n |-> x.f.n, k |-> x.f.k, o |-> x.o, s |-> SizeOf(x.f), c |-> const \/ x.f.c, d |-> x.d,
     v |-> IF x.f.k = "record" THEN <<>> ELSE [j \in 1..x.f.m |-> src[x.b + j]]]

\* enumerations: enumerators are numbered by value
Enums == << [names |-> <<"red", "green", "blue">>, vals |-> <<0, 1, 2>>, deflt |-> 1, under |-> "u8"],
            [names |-> <<"hi", "lo", "zero", "one">>, vals |-> <<3, 0, 1, 2>>, deflt |-> 1, under |-> "i64"],
            [names |-> <<"only">>, vals |-> <<0>>, deflt |-> 0, under |-> "u16"] >>

\* type lists
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
AllIn(q, T) == \A i \in DOMAIN q : q[i] \in T

\* types: what a wrapping keeps
TypeNames == <<"char", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "bool", "Kind", "Colour", "Broad",
               "Mix", "Bird", "Tmpl", "Couple">>
TypeKinds == <<"char", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "bool", "enum", "enum", "enum",
               "record", "record", "record", "record">>
EnumUnder(t) == CASE t = 13 -> "u8" [] t = 14 -> "u8" [] t = 15 -> "i64" [] OTHER -> ""
Type(t, w) ==
    CASE t = 20 -> [name |-> "void", kind |-> "void", length |-> 0, under |-> ""]
      [] t = 21 -> [name |-> "null", kind |-> "pointer", length |-> 0, under |-> "void"]
      [] t = 22 -> [name |-> "void", kind |-> "pointer", length |-> 0, under |-> "void"]
      [] w \in {5, 6, 10, 11} -> [name |-> TypeNames[t], kind |-> "pointer", length |-> 0, under |-> TypeNames[t]]
      [] w = 7 -> [name |-> TypeNames[t], kind |-> "array", length |-> 3, under |-> TypeNames[t]]
      [] OTHER -> [name |-> TypeNames[t], kind |-> TypeKinds[t], length |-> 0, under |-> EnumUnder(t)]

Lits == <<"", "a", "b", "ab", "abc", "abd", "Abc", "aB", "abcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz01235",
          "bbcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz0123", "a b">>

\* IEEE 754: sign, exponent and fraction, least significant byte first
Pow == [i \in 0..8 |-> 2 ^ i]
Exp(t) == IF t = 1 THEN 8 ELSE 11
Frac(t) == IF t = 1 THEN 23 ELSE 52
\* bit i of the number with sign s, exponent field x, and fraction bits f(i)
FloatBits(t, s, x, ones, low) ==
    [i \in 0..(Exp(t) + Frac(t)) |->
        IF i = Exp(t) + Frac(t) THEN s
        ELSE IF i >= Frac(t) THEN (x \div 2 ^ (i - Frac(t))) % 2
        ELSE IF ones THEN 1 ELSE IF i = 0 THEN low ELSE 0]
RECURSIVE ByteOf(_, _, _)
ByteOf(b, j, i) == IF i = 8 THEN 0 ELSE b[8 * j + i] * Pow[i] + ByteOf(b, j, i + 1)
Bytes(t, b) == [j \in 1..((1 + Exp(t) + Frac(t)) \div 8) |-> ByteOf(b, j - 1, 0)]
Bias(t) == 2 ^ (Exp(t) - 1) - 1
Limit(t, i) ==
    Bytes(t, CASE i = 1 -> FloatBits(t, 0, 2 ^ Exp(t) - 2, TRUE, 1)      \* greatest finite
               [] i = 2 -> FloatBits(t, 1, 2 ^ Exp(t) - 2, TRUE, 1)      \* least finite
               [] i = 3 -> FloatBits(t, 0, 1, FALSE, 0)                  \* smallest normal
               [] i = 4 -> FloatBits(t, 0, 0, FALSE, 1)                  \* smallest positive
               [] i = 5 -> FloatBits(t, 0, Bias(t) - Frac(t), FALSE, 0)) \* distance from one to the next
=============================================================================
