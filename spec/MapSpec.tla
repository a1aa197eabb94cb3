------------------------------ MODULE MapSpec ------------------------------
(* Abstract specification of rpp::Map (C04): a finite map. A slot's state is *)
(* the set of its <<key, value>> pairs.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Off == [on |-> FALSE, f |-> {}]
On(f) == [on |-> TRUE, f |-> f]
Keys(f) == {p[1] : p \in f}
Has(f, k) == k \in Keys(f)
Val(f, k) == (CHOOSE p \in f : p[1] = k)[2]
Put(f, k, v) == {p \in f : p[1] # k} \cup {<<k, v>>}
Del(f, k) == {p \in f : p[1] # k}

OnOne == {"ins", "insw", "emplace", "emplacew", "erase", "tryerase", "get", "getw", "tryget", "trygetw",
          "has", "goi", "goim", "goiw", "setit", "probe", "clear", "reserve", "grow", "drop", "clone", "movec"}
OnTwo == {"clonea", "movea"}
Legal(s, e) ==
    /\ e.op \in OnOne \cup OnTwo => s[e.c].on
    /\ e.op \in OnTwo => s[e.d].on
    /\ e.op = "movec" => e.d # e.c
    /\ e.op \in {"erase", "get", "getw"} => Has(s[e.c].f, e.k)

After(s, e) ==
    LET f == s[e.c].f IN
    CASE e.op \in {"new", "newcap"} -> [s EXCEPT ![e.c] = On({})]
      [] e.op = "init2" -> [s EXCEPT ![e.c] = On(Put({<<e.k, e.v>>}, e.k2, e.v + 1))]
      [] e.op \in {"ins", "emplace"} -> [s EXCEPT ![e.c] = On(Put(f, e.k, e.v))]
      [] e.op \in {"insw", "emplacew"} -> [s EXCEPT ![e.c] = On(Put(f, e.k, e.v + 1))]
      [] e.op \in {"erase", "tryerase"} -> [s EXCEPT ![e.c] = On(Del(f, e.k))]
      [] e.op \in {"getw", "goiw"} -> [s EXCEPT ![e.c] = On(Put(f, e.k, e.v))]
      [] e.op \in {"trygetw", "setit"} -> IF Has(f, e.k) THEN [s EXCEPT ![e.c] = On(Put(f, e.k, e.v))] ELSE s
      [] e.op \in {"goi", "goim"} -> IF Has(f, e.k) THEN s ELSE [s EXCEPT ![e.c] = On(Put(f, e.k, 0))]
      [] e.op = "clear" -> [s EXCEPT ![e.c] = On({})]
      [] e.op = "drop" -> [s EXCEPT ![e.c] = Off]
      [] e.op \in {"clone", "clonea"} -> [s EXCEPT ![e.d] = On(f)]
      [] e.op \in {"movec", "movea"} -> IF e.c = e.d THEN s ELSE [s EXCEPT ![e.d] = On(f), ![e.c] = On({})]
      [] OTHER -> s

Result(s, e) ==
    LET f == s[e.c].f
        opt == IF Has(f, e.k) THEN Val(f, e.k) ELSE -1
        bit == IF Has(f, e.k) THEN 1 ELSE 0 IN
    CASE e.op = "ins" -> <<e.v, e.k>>
      [] e.op = "emplace" -> <<e.v>>
      [] e.op = "tryerase" -> <<bit>>
      [] e.op = "get" -> <<Val(f, e.k), Val(f, e.k), Val(f, e.k)>>
      [] e.op = "tryget" -> <<opt, opt, opt>>
      [] e.op = "has" -> <<bit, bit>>
      [] e.op \in {"goi", "goim"} -> <<IF Has(f, e.k) THEN Val(f, e.k) ELSE 0, e.k>>
      [] OTHER -> <<>>
=============================================================================
