----------------------------- MODULE FormatTrace -----------------------------
EXTENDS FormatTable, TraceBase
VARIABLE l
Vt == Trace[1].vt
Names == <<<<"a", 1>>, <<"b", -3>>, <<"ab", 5>>, <<"aa", 100>>, <<"A", 7>>, <<"long_enumerator_name", -128>>, <<"-7", 127>>>>
Texts(xs) == [i \in 1..Len(xs) |-> Text(xs[i])]
Clean(e) == e.out = "ok" /\ e.err = 0
Same(e, t) == e.r = t /\ e.len = Len(t) /\ e.m = Len(t)
Fmt(e) ==
    IF e.out = "die" THEN ~Accepts(Word(FTab, e.n, e.code), e.k)
    ELSE /\ Clean(e) /\ Len(e.args) = e.k /\ e.f = Word(FTab, e.n, e.code)
         /\ Accepts(e.f, e.k) /\ Same(e, Fill(e.f, 1, Texts(e.args), 1))
Value(e) == Clean(e) /\ Same(e, Text(e.a))
Result(p, e) == /\ e.ok = p.ok
                /\ p.ok => e.v = p.v /\ e.rest = p.rest
Rest(s) == LET k == FloatEnd(s) IN From(s, k)
\* the numerator over 64 of a plain decimal number, when it has one of at most 7 digits
Judge(e) ==
    CASE e.op = "fmt" -> Fmt(e)
      [] e.op = "val" -> Value(e)
      [] e.op = "cat" -> /\ Clean(e) /\ e.sep = Word(FTab, e.n, e.code)
                         /\ Len(e.xs) = e.k /\ e.r = Join(e.xs, e.sep, 1) /\ e.len = Len(e.r)
      [] e.op = "tn" -> Clean(e) /\ e.r = TypeText(e.d)
      [] e.op = "en" -> /\ Clean(e)
                        /\ LET hit == {i \in 1..Len(Names) : Names[i][2] = (IF e.v > 127 THEN e.v - 256 ELSE e.v)} IN
                           e.r = IF hit = {} THEN "Invalid" ELSE Names[CHOOSE i \in hit : TRUE][1]
      [] e.op = "pi" -> Clean(e) /\ Result(ParseInt(e.inp), e)
      [] e.op = "ps" -> Clean(e) /\ Result(ParseWord(e.inp), e)
      [] e.op = "pe" -> Clean(e) /\ Result(ParseEnum(e.inp, Names), e)
      [] e.op = "sk" -> Clean(e) /\ e.v = Skip(e.inp)
      [] e.op = "pf" -> /\ Clean(e)
                        /\ LET k == FloatEnd(e.inp) IN
                           /\ e.ok = (k > 0)
                           /\ k > 0 => e.rest = From(e.inp, k)
                        /\ e.num # <<>> => e.ok /\ e.v = e.num[1]
      [] e.op \in {"reset", "end"} -> Clean(e)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge(Trace[l])
Spec == Init /\ [][Next]_l
Track == TrackAt(l)
=============================================================================
