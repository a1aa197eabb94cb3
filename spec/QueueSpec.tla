----------------------------- MODULE QueueSpec -----------------------------
(* Abstract specification of rpp::Queue (C02): a FIFO sequence with indexed  *)
(* access, whatever its circular storage looks like.                         *)
EXTENDS Integers, Sequences, TLC

Off == [on |-> FALSE, v |-> <<>>]
On(v) == [on |-> TRUE, v |-> v]
Upto(v, n) == [i \in 1..n |-> v + i - 1]

OnOne == {"push", "pushc", "emplace", "pushdup", "pop", "clear", "reserve", "grow", "set", "setit",
          "setfront", "setback", "setpen", "erase", "get", "front", "back", "pen", "probe", "drop",
          "clone", "movec"}
OnTwo == {"clonea", "movea"}

Legal(s, e) ==
    /\ e.op \in OnOne \cup OnTwo => s[e.c].on
    /\ e.op \in OnTwo => s[e.d].on
    /\ e.op = "movec" => e.d # e.c
    /\ e.op \in {"pop", "front", "back", "setfront", "setback"} => s[e.c].v # <<>>
    /\ e.op \in {"pen", "setpen"} => Len(s[e.c].v) > 1
    /\ e.op \in {"set", "setit", "get", "pushdup"} => e.i >= 0 /\ e.i < Len(s[e.c].v)
    /\ e.op = "erase" => e.i < Len(s[e.c].v)

Positions(v, x) == {i \in 1..Len(v) : v[i] = x}
First(P) == CHOOSE i \in P : \A j \in P : i <= j
RemoveAt(v, i) == SubSeq(v, 1, i - 1) \o SubSeq(v, i + 1, Len(v))
EraseFirst(v, x) == IF Positions(v, x) = {} THEN v ELSE RemoveAt(v, First(Positions(v, x)))

After(s, e) ==
    LET v == s[e.c].v IN
    CASE e.op \in {"new", "newcap"} -> [s EXCEPT ![e.c] = On(<<>>)]
      [] e.op = "init3" -> [s EXCEPT ![e.c] = On(Upto(e.v, 3))]
      [] e.op \in {"push", "pushc", "emplace", "pushdup"} -> [s EXCEPT ![e.c] = On(Append(v, e.v))]
      [] e.op = "pop" -> [s EXCEPT ![e.c] = On(Tail(v))]
      [] e.op = "clear" -> [s EXCEPT ![e.c] = On(<<>>)]
      [] e.op \in {"set", "setit"} -> [s EXCEPT ![e.c] = On([v EXCEPT ![e.i + 1] = e.v])]
      [] e.op = "setfront" -> [s EXCEPT ![e.c] = On([v EXCEPT ![1] = e.v])]
      [] e.op = "setback" -> [s EXCEPT ![e.c] = On([v EXCEPT ![Len(v)] = e.v])]
      [] e.op = "setpen" -> [s EXCEPT ![e.c] = On([v EXCEPT ![Len(v) - 1] = e.v])]
      [] e.op = "erase" -> [s EXCEPT ![e.c] = On(EraseFirst(v, e.v))]
      [] e.op = "drop" -> [s EXCEPT ![e.c] = Off]
      [] e.op \in {"clone", "clonea"} -> [s EXCEPT ![e.d] = On(v)]
      [] e.op \in {"movec", "movea"} ->
            IF e.c = e.d THEN s ELSE [s EXCEPT ![e.d] = On(v), ![e.c] = On(<<>>)]
      [] OTHER -> s

Result(s, e) ==
    LET v == s[e.c].v
        n == Len(v) IN
    CASE e.op \in {"push", "emplace", "pushdup"} -> <<e.v>>
      [] e.op = "pushc" -> <<e.v, e.v>>
      [] e.op = "get" -> <<v[e.i + 1], v[e.i + 1]>>
      [] e.op = "front" -> <<v[1]>>
      [] e.op = "back" -> <<v[n]>>
      [] e.op = "pen" -> <<v[n - 1]>>
      [] e.op = "erase" -> <<IF Positions(v, e.v) = {} THEN 0 ELSE 1, e.v>>
      [] e.op = "probe" -> (IF n = 0 THEN <<>> ELSE <<v[1], v[1], v[n], v[n]>>)
                           \o (IF n < 2 THEN <<>> ELSE <<v[n - 1], v[n - 1]>>)
      [] OTHER -> <<>>
=============================================================================
