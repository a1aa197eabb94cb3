---------------------------- MODULE RegionSpec ----------------------------
(* Abstract specification of rpp's region allocator (C09): per thread a      *)
(* stack of open regions, each with a brand and the bytes allocated in it.   *)
EXTENDS Integers, Sequences, TLC
CONSTANT MaxDepth
NoRegions == <<>>
Top(k) == k[Len(k)]
RECURSIVE Bytes(_)
Bytes(k) == IF k = <<>> THEN 0 ELSE Head(k).n + Bytes(Tail(k))
\* alloc and free name the brand b; end names the brand of the scope object destroyed
Legal(s, e) ==
    CASE e.op = "begin" -> Len(s[e.t]) < MaxDepth
      [] e.op \in {"alloc", "free", "end", "use"} -> s[e.t] # <<>> /\ Top(s[e.t]).b = e.b
      [] OTHER -> TRUE
After(s, e) ==
    LET k == s[e.t] IN
    CASE e.op = "begin" -> [s EXCEPT ![e.t] = Append(k, [b |-> e.b, n |-> 0])]
      [] e.op = "alloc" -> [s EXCEPT ![e.t][Len(k)].n = @ + e.n]
      [] e.op = "end" -> [s EXCEPT ![e.t] = SubSeq(k, 1, Len(k) - 1)]
      [] e.op = "quit" -> [s EXCEPT ![e.t] = <<>>]
      [] OTHER -> s
=============================================================================
