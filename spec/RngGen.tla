------------------------------- MODULE RngGen -------------------------------
(* Random histories over several streams that are seeded alike, copied and   *)
(* used differently, with bounds around the extremes of all integer types.   *)
EXTENDS RngSpec, GenBase
VARIABLES lab, ctr
vars == <<lab, ctr>>
R(S) == RandomElement({x \in S : ctr >= 0})
Init == lab = [op |-> "init"] /\ ctr = 0
Streams == 1..4
\* types 1..8: u8 u16 u32 u64 i8 i16 i32 i64
Width(t) == <<8, 16, 32, 64>>[((t - 1) % 4) + 1]
D16 == IF R(1..2) = 1 THEN R(0..255) * 256 + R(0..255) ELSE R({0, 1, 2, 255, 256, 32766, 32767, 32768, 32769, 65533, 65534, 65535})
D8 == IF R(1..2) = 1 THEN R(0..255) ELSE R({0, 1, 2, 126, 127, 128, 129, 253, 254, 255})
Num(t) == CASE Width(t) = 8 -> <<0, 0, 0, D8>> [] Width(t) = 16 -> <<0, 0, 0, D16>>
            [] Width(t) = 32 -> <<0, 0, D16, D16>> [] Width(t) = 64 -> <<D16, D16, D16, D16>>
\* the number one or two further, if there is no carry
Next1(x, t) == IF x[4] + 2 <= (IF Width(t) = 8 THEN 255 ELSE 65535) THEN [x EXCEPT ![4] = @ + R(1..2)] ELSE Num(t)
RangeOp(t, x, y) == LET lo == IF Lt(x, y) THEN x ELSE y hi == IF Lt(x, y) THEN y ELSE x IN
    IF x = y THEN [op |-> "nop"]
    ELSE [op |-> "range", i |-> R(Streams), t |-> t, a1 |-> lo[1], a2 |-> lo[2], a3 |-> lo[3], a4 |-> lo[4],
          b1 |-> hi[1], b2 |-> hi[2], b3 |-> hi[3], b4 |-> hi[4]]
Kinds == {"seed", "seed2", "fresh", "copy", "draw", "draw2", "integer", "range", "range2", "range3", "near", "near2", "unit", "coin", "shuffle", "shuffle2",
          "hist", "uhist", "chist", "phist", "neigh", "distinct", "digest"}
Op(o) ==
    CASE o \in {"seed", "seed2"} -> [op |-> "seed", i |-> R(Streams), s |-> R(1..3)]
      [] o = "fresh" -> [op |-> "fresh", i |-> R(Streams)]
      [] o = "copy" -> [op |-> "copy", i |-> R(Streams), j |-> R(Streams)]
      [] o \in {"draw", "draw2"} -> [op |-> "draw", i |-> R(Streams)]
      [] o = "integer" -> [op |-> "integer", i |-> R(Streams), t |-> R(1..8)]
      [] o = "unit" -> [op |-> "unit", i |-> R(Streams), t |-> R(1..2)]
      [] o = "coin" -> [op |-> "coin", i |-> R(Streams), t |-> R(1..2), n |-> R(0..16)]
      [] o \in {"shuffle", "shuffle2"} -> [op |-> "shuffle", i |-> R(Streams), t |-> R(1..2), n |-> IF R(1..2) = 1 THEN R(0..6) ELSE R(0..60)]
      [] o = "hist" -> [op |-> "hist", t |-> R(1..8), s |-> R(1..12), n |-> R(1..12)]
      [] o = "uhist" -> [op |-> "uhist", t |-> R(1..2), s |-> R(1..12), n |-> R({2, 4, 8, 16})]
      [] o = "chist" -> [op |-> "chist", t |-> R(1..2), s |-> R(1..12), n |-> R(0..16)]
      [] o = "phist" -> [op |-> "phist", s |-> R(1..12), n |-> R(2..4)]
      [] o \in {"neigh", "distinct", "digest"} -> [op |-> o, s |-> R(1..12)]
SimNext == /\ ctr' = ctr + 1
           /\ \E o \in {R(Kinds)} : \E t \in {R(1..8)} :
              IF o \in {"range", "range2", "range3"} THEN \E x \in {Num(t)} : \E y \in {Num(t)} : lab' = RangeOp(t, x, y)
              ELSE IF o \in {"near", "near2"} THEN \E x \in {Num(t)} : \E y \in {Next1(x, t)} : lab' = RangeOp(t, x, y)
              ELSE \E e \in {Op(o)} : lab' = e
SimEmit == EmitEdge(<<ctr>>, lab', <<ctr'>>)
=============================================================================
