----------------------------- MODULE FormatTable -----------------------------
(* Symbols of generated format strings: a code is read in base 16, the first *)
(* character in the lowest digit.                                            *)
EXTENDS FormatSpec
FTab == <<"%", "a", " ", "{", "}", "d", "s", "\\", "\"", "n">>
RECURSIVE Word(_, _, _)
Word(tab, n, c) == IF n = 0 THEN "" ELSE tab[((c % 16) % Len(tab)) + 1] \o Word(tab, n - 1, c \div 16)
=============================================================================
