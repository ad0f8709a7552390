----------------------------- MODULE DecompSim -----------------------------
(* Random regions, split directions and sample points, some of them aligned   *)
(* with the direction.                                                        *)
EXTENDS RectShapes
CONSTANTS Depth
Dirs == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<3, 4>>, <<-4, 3>>, <<4, -3>>, <<-3, -4>>, <<1, 1>>, <<-1, 1>>, <<1, -2>>}
RECURSIVE Pts(_, _, _)
Pts(n, d, w) == IF n = 0 THEN <<>> ELSE
  LET p == <<R(0..(8 * w)), R(0..(8 * 25))>> k == R(-60..60) IN
  IF R(1..2) = 1 THEN <<p>> \o Pts(n - 1, d, w) ELSE <<p, <<p[1] + k * d[1], p[2] + k * d[2]>> >> \o Pts(n - 1, d, w)
\* two cells that share a border
Mate(c) == LET xs == {c[1][k][1] : k \in 1..Len(c[1])} m == MaxOf(xs) T2(p) == <<2 * m - p[1], p[2]>> IN [j \in 1..Len(c) |-> MapRing(c[j], T2)]
Field == LET k == R(1..8) IN CASE k = 1 -> Fields(1) [] k = 2 -> LET c == ACell IN <<c, Mate(c)>> [] OTHER -> ARegion
Shifts == {<<0, 0>>, <<0, 0>>, <<0, 0>>, <<-3000, 70000>>, <<-90, -400>>, <<500000, 4000000>>}
Pick(v) == IF R(1..12) = 1 THEN [op |-> "angle", v |-> R(-9000..9000)]
  ELSE LET d == R(Dirs) IN [op |-> "dec", v |-> v, kind |-> R({"trap", "bous"}), d |-> d, turn |-> R({0, 0, 0, 1, -1, 2}), off |-> R(Shifts), f16 |-> R({16, 16, 1, 160}), ps |-> Pts(9, d, IF Len(v) = 1 THEN 25 ELSE 50)]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E v \in {Field} : \E o \in {Pick(v)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
