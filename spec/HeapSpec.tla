------------------------------ MODULE HeapSpec ------------------------------
(* Abstract specification of rpp::Heap (C03): a bag of elements; elements    *)
(* are numbered key * 1000 + unique, so a bag is a set here; only the key    *)
(* takes part in the order. top is some minimum, pop removes exactly top.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Off == [on |-> FALSE, b |-> {}, top |-> -1]
Key(x) == x \div 1000
Minimal(b, x) == x \in b /\ \A y \in b : Key(x) <= Key(y)

OnOne == {"push", "emplace", "pop", "clear", "reserve", "grow", "top", "probe", "drop", "clone", "movec"}
OnTwo == {"clonea", "movea"}
Legal(s, e) ==
    /\ e.op \in OnOne \cup OnTwo => s[e.c].on
    /\ e.op \in OnTwo => s[e.d].on
    /\ e.op = "movec" => e.d # e.c
    /\ e.op \in {"pop", "top"} => s[e.c].b # {}
\* the bag of slot e.c / e.d afterwards
Bags(s, e) ==
    LET B == [i \in DOMAIN s |-> s[i].b]
        b == B[e.c] IN
    CASE e.op \in {"new", "newcap", "drop", "clear"} -> [B EXCEPT ![e.c] = {}]
      [] e.op = "init3" -> [B EXCEPT ![e.c] = {e.v + 1001, e.v, e.v + 2}]
      [] e.op \in {"push", "emplace"} -> [B EXCEPT ![e.c] = b \cup {e.v}]
      [] e.op = "pop" -> [B EXCEPT ![e.c] = b \ {s[e.c].top}]
      [] e.op \in {"clone", "clonea"} -> [B EXCEPT ![e.d] = b]
      [] e.op \in {"movec", "movea"} -> IF e.c = e.d THEN B ELSE [B EXCEPT ![e.d] = b, ![e.c] = {}]
      [] OTHER -> B
Present(s, e) ==
    LET P == [i \in DOMAIN s |-> s[i].on] IN
    CASE e.op \in {"new", "newcap", "init3"} -> [P EXCEPT ![e.c] = TRUE]
      [] e.op = "drop" -> [P EXCEPT ![e.c] = FALSE]
      [] e.op \in {"clone", "movec"} -> [P EXCEPT ![e.d] = TRUE]
      [] OTHER -> P
=============================================================================
