------------------------------ MODULE StrSpec ------------------------------
(* Abstract specification of rpp::String and rpp::String_View (C05): byte    *)
(* sequences of explicit length. Bytes in operations are encoded as digits   *)
(* of a number in base 16, through Table.                                    *)
EXTENDS Integers, Sequences, TLC

Table == <<0, 1, 97, 98, 47, 46, 92, 65, 90, 122, 32, 127, 128, 255, 10, 64>>
RECURSIVE Decode(_, _)
Decode(n, code) == IF n = 0 THEN <<>> ELSE <<Table[(code % 16) + 1]>> \o Decode(n - 1, code \div 16)
RECURSIVE Rep(_, _)
Rep(b, k) == IF k = 0 THEN <<>> ELSE b \o Rep(b, k - 1)
Bytes(e) == Rep(Decode(e.n, e.code), e.k)

Off == [on |-> FALSE, b |-> <<>>]
On(b) == [on |-> TRUE, b |-> b]

\* lexicographic order of byte sequences
Less(x, y) == \/ \E i \in 1..Len(x) : i <= Len(y) /\ x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
              \/ Len(x) < Len(y) /\ SubSeq(y, 1, Len(x)) = x

Seps == {47, 92}
LastIn(b, S) == LET P == {i \in 1..Len(b) : b[i] \in S} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
Suffix(b) == SubSeq(b, LastIn(b, Seps) + 1, Len(b))
Removed(b) == SubSeq(b, 1, LastIn(b, Seps))
\* the extension is determined when a dot follows the last separator
HasExt(b) == LastIn(b, {46}) > LastIn(b, Seps)
Ext(b) == SubSeq(b, LastIn(b, {46}) + 1, Len(b))
IsSuffix(x, b) == Len(x) <= Len(b) /\ SubSeq(b, Len(b) - Len(x) + 1, Len(b)) = x

Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
B(b) == IF b THEN 1 ELSE 0

Making == {"mk", "mkz", "mkw", "mki", "mkv"}
OnOne == {"sub", "vsub", "get", "vget", "set", "writec", "term", "vterm", "clone", "movec", "setlen", "path", "ascii", "drop", "str"}
OnTwo == {"append", "vappend", "write", "vwrite", "movea", "cmp", "clonea", "swap"}
Legal(s, e) ==
    /\ e.op \in OnOne \cup OnTwo => s[e.c].on
    /\ e.op \in OnTwo => s[e.d].on
    /\ e.op \in {"movec", "movea"} => e.c # e.d
    /\ e.op \in {"write", "vwrite"} => e.c # e.d /\ e.i >= 0 /\ e.i <= Len(s[e.c].b) /\ Len(s[e.d].b) <= Len(s[e.c].b) - e.i
    /\ e.op \in {"sub", "vsub"} => e.i <= e.j /\ e.i >= 0 /\ e.j <= Len(s[e.c].b)
    /\ e.op \in {"get", "vget", "set", "writec"} => e.i >= 0 /\ e.i < Len(s[e.c].b)
    /\ e.op = "setlen" => e.n <= Len(s[e.c].b)

Put(b, i, x) == SubSeq(b, 1, i) \o x \o SubSeq(b, i + Len(x) + 1, Len(b))
After(s, e) ==
    LET b == s[e.c].b IN
    CASE e.op \in Making -> [s EXCEPT ![e.c] = On(Bytes(e))]
      [] e.op \in {"clone", "clonea", "str"} -> [s EXCEPT ![e.d] = On(b)]
      [] e.op = "swap" -> [s EXCEPT ![e.c] = s[e.d], ![e.d] = s[e.c]]
      [] e.op \in {"movec", "movea"} -> [s EXCEPT ![e.d] = On(b), ![e.c] = On(<<>>)]
      [] e.op \in {"append", "vappend"} -> [s EXCEPT ![e.x] = On(b \o s[e.d].b)]
      [] e.op \in {"term", "vterm"} -> [s EXCEPT ![e.x] = On(Append(b, 0))]
      [] e.op \in {"write", "vwrite"} -> [s EXCEPT ![e.c] = On(Put(b, e.i, s[e.d].b))]
      [] e.op \in {"set", "writec"} -> [s EXCEPT ![e.c] = On([b EXCEPT ![e.i + 1] = Table[e.v + 1]])]
      [] e.op = "setlen" -> [s EXCEPT ![e.c] = On(SubSeq(b, 1, e.n))]
      [] e.op = "drop" -> [s EXCEPT ![e.c] = Off]
      [] OTHER -> s

\* does the observed result r agree with the specification
Answers(s, e, r) ==
    LET b == s[e.c].b IN
    CASE e.op \in {"sub", "vsub"} -> r = SubSeq(b, e.i + 1, e.j)
      [] e.op \in {"get", "vget"} -> r = <<b[e.i + 1]>>
      [] e.op \in {"write", "vwrite"} -> r = <<e.i + Len(s[e.d].b)>>
      [] e.op = "writec" -> r = <<e.i + 1>>
      [] e.op = "cmp" -> LET d == s[e.d].b
                             eq == B(b = d) IN
            \* four equalities, two orders each way, hash(string) = hash(view), hash equal for equal bytes
            /\ r[1] = eq /\ r[2] = eq /\ r[3] = eq /\ r[4] = eq
            /\ r[5] = B(Less(b, d)) /\ r[6] = B(Less(b, d))
            /\ r[7] = B(Less(d, b)) /\ r[8] = B(Less(d, b))
            /\ r[9] = 1
            /\ b = d => r[10] = 1
            /\ r[11] = 1
      [] e.op = "ascii" -> r = [i \in 1..(3 * Len(b)) |->
            LET c == b[(i - 1) \div 3 + 1] IN
            CASE i % 3 = 1 -> Upper(c) [] i % 3 = 2 -> Lower(c) [] OTHER -> B(c \in {32, 9, 10, 13, 11})]
      [] e.op = "path" -> TRUE
      [] OTHER -> r = <<>>
PathOk(b, suf, rem, ext) ==
    /\ suf = Suffix(b) /\ rem = Removed(b)
    /\ IsSuffix(ext, b)
    /\ HasExt(b) => ext = Ext(b)
=============================================================================
