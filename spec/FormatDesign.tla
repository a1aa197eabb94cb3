---------------------------- MODULE FormatDesign ----------------------------
(* Implementation-shaped model of formatting: one pass over the format       *)
(* string measures (counting placeholders and literal characters), the sum   *)
(* with the lengths of the arguments fixes the size of the result, a second  *)
(* pass writes into it. Every write must lie inside the result. Also the     *)
(* scanners used for parsing, against the definitions. Checked for every     *)
(* format string and argument list up to the bounds.                         *)
EXTENDS FormatSpec
CONSTANTS MaxFmt, Chars, Texts, MaxArgs, PChars, MaxIn
VARIABLES f, args, ph, i, n, len, out, at
vars == <<f, args, ph, i, n, len, out, at>>
RECURSIVE Words(_, _)
Words(S, k) == IF k = 0 THEN {""} ELSE LET w == Words(S, k - 1) IN w \cup {x \o c : x \in w, c \in S}
ArgLists == UNION {[1..k -> Texts] : k \in 0..MaxArgs}
Init == /\ f \in Words(Chars, MaxFmt) /\ args \in ArgLists
        /\ ph = "measure" /\ i = 1 /\ n = 0 /\ len = 0 /\ out = "" /\ at = 1
RECURSIVE Total(_, _)
Total(a, k) == IF k > Len(a) THEN 0 ELSE Len(a[k]) + Total(a, k + 1)
Double(k) == Ch(f, k) = "%" /\ k < Len(f) /\ Ch(f, k + 1) = "%"
Measure ==
    /\ ph = "measure"
    /\ IF i > Len(f)
       THEN /\ ph' = IF n = Len(args) \/ Len(args) = 0 THEN "write" ELSE "refused"
            /\ len' = len + Total(args, 1) /\ i' = 1 /\ UNCHANGED <<n, out, at>>
       ELSE IF Double(i) THEN i' = i + 2 /\ len' = len + 1 /\ UNCHANGED <<ph, n, out, at>>
       ELSE IF Ch(f, i) = "%" THEN n' = n + 1 /\ i' = i + 1 /\ UNCHANGED <<ph, len, out, at>>
       ELSE len' = len + 1 /\ i' = i + 1 /\ UNCHANGED <<ph, n, out, at>>
    /\ UNCHANGED <<f, args>>
Put(x) == IF Len(out) + Len(x) > len THEN ph' = "refused" /\ UNCHANGED <<out>> ELSE out' = out \o x /\ UNCHANGED ph
Write ==
    /\ ph = "write"
    /\ IF i > Len(f)
       THEN ph' = (IF Len(out) = len THEN "done" ELSE "refused") /\ UNCHANGED <<i, out, at>>
       ELSE IF Double(i) THEN Put("%") /\ i' = i + 2 /\ UNCHANGED at
       ELSE IF Ch(f, i) = "%"
            THEN IF at > Len(args) THEN ph' = "refused" /\ UNCHANGED <<i, out, at>>
                 ELSE Put(args[at]) /\ at' = at + 1 /\ i' = i + 1
       ELSE Put(Ch(f, i)) /\ i' = i + 1 /\ UNCHANGED at
    /\ UNCHANGED <<f, args, n, len>>
Next == Measure \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bounded == Len(out) <= len \/ ph = "measure"
Right == /\ ph = "done" => Accepts(f, Len(args)) /\ out = Fill(f, 1, args, 1) /\ Len(out) = len
         /\ ph = "refused" => ~Accepts(f, Len(args))
Ends == <>(ph \in {"done", "refused"})

-----------------------------------------------------------------------------
\* parsing loops
RECURSIVE Scan(_, _)
Scan(s, k) == IF k < Len(s) /\ Ch(s, k + 1) \in White THEN Scan(s, k + 1) ELSE k
RECURSIVE WordLoop(_, _, _)
WordLoop(s, start, k) ==
    IF k >= Len(s) THEN IF start < Len(s) THEN [ok |-> TRUE, v |-> From(s, start + 1), rest |-> ""] ELSE None
    ELSE IF Ch(s, k + 1) \in White THEN [ok |-> TRUE, v |-> SubSeq(s, start + 1, k), rest |-> From(s, k + 2)]
    ELSE WordLoop(s, start, k + 1)
Inputs == Words(PChars, MaxIn)
ASSUME Parsing ==
    \A s \in Inputs :
        /\ WordLoop(s, Scan(s, 0), Scan(s, 0)) = ParseWord(s)
        /\ From(s, Scan(s, 0) + 1) = Skip(s)
        /\ LET p == ParseInt(s) IN p.ok =>
             \* what was printed is read back, together with whatever follows it
             /\ \A t \in {"", " ", "a", "-"} : ParseInt(p.v \o t) = [ok |-> TRUE, v |-> p.v, rest |-> t]
             /\ Len(p.rest) < Len(s)
        /\ LET w == ParseWord(s) IN w.ok =>
             /\ w.v # "" /\ ParseWord(w.v) = [ok |-> TRUE, v |-> w.v, rest |-> ""]
             /\ ParseWord(w.v \o " " \o s) = [ok |-> TRUE, v |-> w.v, rest |-> s]
ASSUME Extremes ==
    /\ ParseInt(MaxI).v = MaxI /\ ParseInt("-" \o MinI).v = "-" \o MinI
    /\ ParseInt(MinI).v = MaxI /\ ParseInt("-9223372036854775809").v = "-" \o MinI
    /\ ParseInt("-9223372036854775807").v = "-9223372036854775807"
    /\ ParseInt("99999999999999999999999").v = MaxI
    /\ Big(10) = "1024" /\ Big(64) = "18446744073709551616"
=============================================================================
