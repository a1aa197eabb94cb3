----------------------------- MODULE FormatSpec -----------------------------
(* What printing and parsing mean. Texts are TLA+ strings. A format string   *)
(* is filled from left to right: "%%" is a percent sign, any other "%" takes *)
(* the text of the next argument, everything else stands for itself. The     *)
(* text of a value is defined by recursion over its structure, which the     *)
(* driver reads through the public interface of the value (never by printing *)
(* it). Parsing takes the longest prefix of the right form and returns the   *)
(* rest of the input.                                                        *)
EXTENDS Integers, Sequences, TLC
CONSTANT VT   \* the vertical tab, which cannot be written in a TLA+ string

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

-----------------------------------------------------------------------------
\* filling a format string
RECURSIVE Holes(_, _)
Holes(f, i) == IF i > Len(f) THEN 0
               ELSE IF Ch(f, i) # "%" THEN Holes(f, i + 1)
               ELSE IF i < Len(f) /\ Ch(f, i + 1) = "%" THEN Holes(f, i + 2)
               ELSE 1 + Holes(f, i + 1)
Accepts(f, n) == Holes(f, 1) = n
RECURSIVE Fill(_, _, _, _)
Fill(f, i, args, n) ==
    IF i > Len(f) THEN ""
    ELSE IF Ch(f, i) # "%" THEN Ch(f, i) \o Fill(f, i + 1, args, n)
    ELSE IF i < Len(f) /\ Ch(f, i + 1) = "%" THEN "%" \o Fill(f, i + 2, args, n)
    ELSE args[n] \o Fill(f, i + 1, args, n + 1)

-----------------------------------------------------------------------------
\* numbers as texts
Digs == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digs[n + 1] ELSE Dec(n \div 10) \o Digs[(n % 10) + 1]
RECURSIVE Pad(_, _)
Pad(n, k) == IF k = 0 THEN "" ELSE Pad(n \div 10, k - 1) \o Digs[(n % 10) + 1]
\* 2^e by repeated doubling of a number in limbs of four digits (least significant first)
RECURSIVE Twice(_, _, _)
Twice(x, i, c) == IF i > Len(x) THEN IF c = 0 THEN <<>> ELSE <<c>>
                  ELSE LET y == 2 * x[i] + c IN <<y % 10000>> \o Twice(x, i + 1, y \div 10000)
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN <<1>> ELSE LET x == Pow2(e - 1) IN Twice(x, 1, 0)
RECURSIVE Limbs(_, _)
Limbs(x, i) == IF i = 0 THEN "" ELSE Pad(x[i], 4) \o Limbs(x, i - 1)
Big(e) == LET x == Pow2(e) IN Dec(x[Len(x)]) \o Limbs(x, Len(x) - 1)
BigTable == [e \in {24, 31, 32, 53, 63, 64, 100, 127} |-> Big(e)]

RECURSIVE Join(_, _, _)
Join(xs, sep, i) == IF i > Len(xs) THEN ""
                    ELSE xs[i] \o (IF i < Len(xs) THEN sep ELSE "") \o Join(xs, sep, i + 1)

\* the text of a value
RECURSIVE Text(_)
Items(t) == Join([i \in 1..Len(t.xs) |-> Text(t.xs[i])], ", ", 1)
Or(t, none) == IF t.xs = <<>> THEN none ELSE Text(t.xs[1])
Text(t) ==
    CASE t.k = "int" -> t.v
      [] t.k = "str" -> t.v
      [] t.k = "bool" -> IF t.v = 1 THEN "true" ELSE "false"
      [] t.k = "flt" -> (IF t.neg = 1 THEN "-" ELSE "") \o Dec(t.n \div 64) \o "." \o Pad((t.n % 64) * 15625, 6)
      [] t.k = "pow" -> (IF t.neg = 1 THEN "-" ELSE "") \o BigTable[t.e] \o ".000000"
      [] t.k = "spec" -> (IF t.neg = 1 THEN "-" ELSE "") \o t.v
      [] t.k = "list" -> t.name \o "[" \o Items(t) \o "]"
      [] t.k = "map" -> "Map[" \o Join([i \in 1..Len(t.xs) |-> "{" \o Text(t.xs[i][1]) \o " : " \o Text(t.xs[i][2]) \o "}"], ", ", 1) \o "]"
      [] t.k = "brace" -> t.name \o "{" \o Items(t) \o "}"
      [] t.k = "counted" -> t.name \o (IF t.xs = <<>> THEN "{null}" ELSE "[" \o Dec(t.n) \o "]{" \o Text(t.xs[1]) \o "}")
      [] t.k = "maybe" -> t.name \o "{" \o Or(t, t.none) \o "}"
      [] t.k = "record" -> t.name \o "{" \o Join([i \in 1..Len(t.xs) |-> t.fs[i] \o " : " \o Text(t.xs[i])], ", ", 1) \o "}"
      [] t.k = "enum" -> t.name \o "::" \o Join(t.cs, "", 1)
      [] t.k = "ptr" -> IF t.v = "" THEN "(null)" ELSE "(0x" \o t.v \o ")"
      [] t.k = "group" -> "{" \o Items(t) \o "}"
      [] t.k = "storage" -> "Storage<" \o t.name \o ">"
      [] t.k = "fun" -> "Function{" \o t.ret \o "(" \o Join(t.xs, ", ", 1) \o ")}"

\* the name of a type
RECURSIVE TypeText(_)
TypeText(t) ==
    CASE t.k = "base" -> t.name
      [] t.k = "tmpl" -> t.name \o "<" \o Join([i \in 1..Len(t.xs) |-> TypeText(t.xs[i])], ", ", 1) \o ">"
      [] t.k = "pre" -> t.name \o " " \o TypeText(t.xs[1])
      [] t.k = "post" -> TypeText(t.xs[1]) \o t.name
      [] t.k = "fun" -> "Function<" \o TypeText(t.xs[1]) \o "(" \o Join([i \in 1..(Len(t.xs) - 1) |-> TypeText(t.xs[i + 1])], ", ", 1) \o ")>"

-----------------------------------------------------------------------------
\* parsing
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
White == {" ", "\t", "\n", "\r", VT}
Space == White \cup {"\f"}          \* what precedes a number
RECURSIVE Run(_, _, _)
\* the first position >= i whose character is not in S
Run(s, i, S) == IF i > Len(s) \/ Ch(s, i) \notin S THEN i ELSE Run(s, i + 1, S)
None == [ok |-> FALSE]

Signed(s, i) == i <= Len(s) /\ Ch(s, i) \in {"+", "-"}
RECURSIVE DigitLess(_, _, _)
Val(c) == CHOOSE d \in 0..9 : Digs[d + 1] = c
DigitLess(x, y, i) == IF i > Len(x) THEN FALSE
                      ELSE IF Ch(x, i) = Ch(y, i) THEN DigitLess(x, y, i + 1) ELSE Val(Ch(x, i)) < Val(Ch(y, i))
Below(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE DigitLess(x, y, 1)
MaxI == "9223372036854775807"
MinI == "9223372036854775808"
Number(neg, ds) ==
    LET z == Run(ds, 1, {"0"})
        d == IF z > Len(ds) THEN "0" ELSE From(ds, z) IN
    IF neg THEN IF d = "0" THEN "0" ELSE IF Below(MinI, d) THEN "-" \o MinI ELSE "-" \o d
    ELSE IF Below(MaxI, d) THEN MaxI ELSE d
ParseInt(s) ==
    LET a == Run(s, 1, Space)
        b == IF Signed(s, a) THEN a + 1 ELSE a
        c == Run(s, b, Digit) IN
    IF c = b THEN None
    ELSE [ok |-> TRUE, v |-> Number(b > a /\ Ch(s, a) = "-", SubSeq(s, b, c - 1)), rest |-> From(s, c)]

\* a number with a fraction: where it ends (0 when there is none)
FloatEnd(s) ==
    LET a == Run(s, 1, Space)
        b == IF Signed(s, a) THEN a + 1 ELSE a
        c == Run(s, b, Digit)
        d == IF c <= Len(s) /\ Ch(s, c) = "." THEN Run(s, c + 1, Digit) ELSE c IN
    IF d = b \/ (d = b + 1 /\ c = b) THEN 0 ELSE d

Skip(s) == From(s, Run(s, 1, White))
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i > Len(s) \/ Ch(s, i) \in White THEN i ELSE WordEnd(s, i + 1)
ParseWord(s) ==
    LET a == Run(s, 1, White)
        b == WordEnd(s, a) IN
    IF a > Len(s) THEN None
    ELSE [ok |-> TRUE, v |-> SubSeq(s, a, b - 1), rest |-> IF b > Len(s) THEN "" ELSE From(s, b + 1)]
\* names: <<text, value>>
ParseEnum(s, names) ==
    LET w == ParseWord(s)
        hit == {i \in 1..Len(names) : w.ok /\ names[i][1] = w.v} IN
    IF hit = {} THEN None ELSE [ok |-> TRUE, v |-> names[CHOOSE i \in hit : TRUE][2], rest |-> w.rest]
=============================================================================
