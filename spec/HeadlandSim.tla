---------------------------- MODULE HeadlandSim -----------------------------
(* Random fields, widths and numbers of headland swaths.                      *)
EXTENDS RectShapes
CONSTANTS Depth
RECURSIVE Pts(_)
Pts(n) == IF n = 0 THEN <<>> ELSE << <<R(-8..(8 * 26)), R(-8..(8 * 26))>> >> \o Pts(n - 1)
Offs == {<<0, 0>>, <<0, 0>>, <<500000, 4000000>>, <<-3000, 70000>>, <<-40, -15>>}
Wide1(k) == IF k = 1 THEN << <<Box(R(0..3), R(0..3), R(18..26), R(18..26))>> >> ELSE << <<Ell(R(0..3), R(0..3), 25, 25, R(10..16), R(10..16)), Box(R(4..5), R(5..8), R(1..2), R(1..2))>> >>
\* an obstacle and a notch with sharp corners
Spiky == LET x == R(4..8) y == R(5..12) b == R(1..2) l == R(4..9) IN
  IF R(1..2) = 1 THEN << << <<<<0, 0>>, <<24, 0>>, <<24, 20>>, <<0, 20>>, <<0, 0>>>>, <<<<x, y>>, <<x, y + b>>, <<x + l, y + b>>, <<x, y>>>> >> >>
  ELSE << << <<<<0, 0>>, <<x, 0>>, <<x + b, y>>, <<x + 2 * b, 0>>, <<24, 0>>, <<24, 20>>, <<0, 20>>, <<0, 0>>>> >> >>
Pick(v, f, off) ==
  LET k == R(1..10) IN
  CASE k = 1 -> [op |-> "hlx", v |-> f, w |-> R(0..4), off |-> off]
    [] k = 2 -> [op |-> "areax", v |-> f, w |-> R(1..3), n |-> R(0..3), off |-> off]
    [] k \in {3, 4} -> [op |-> "ringsx", v |-> f, w |-> 2 * R(1..3), n |-> R(0..4), o2i |-> R(BOOLEAN), off |-> off]
    [] k \in {5, 6, 7} -> [op |-> "hl", v |-> v, w |-> R(0..40), ps |-> Pts(15), off |-> off]
    [] k = 8 -> [op |-> "area", v |-> v, w |-> R(1..20), n |-> R(0..3), ps |-> Pts(15), off |-> off]
    [] k = 9 -> [op |-> "rings", v |-> IF R(1..3) = 1 THEN Spiky ELSE v, w |-> 2 * R(1..12), n |-> R(0..4), o2i |-> R(BOOLEAN), ps |-> Pts(12), off |-> off]
    [] OTHER -> [op |-> "none", v |-> v, w |-> R(110..4000), off |-> off]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E v \in {ARegion} : \E f \in {IF R(1..3) = 1 THEN Fields(R(1..3)) ELSE LET w == Wide1(R(1..2)) IN <<Finish(w[1])>>} :
          \E off \in {R(Offs)} : \E o \in {Pick(v, f, off)} : hist' = Append(hist, o @@ [f16 |-> R({16, 16, 1, 256})])
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
