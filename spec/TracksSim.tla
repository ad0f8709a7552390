----------------------------- MODULE TracksSim -----------------------------
(* Random regions, directions and widths for swath generation.                *)
EXTENDS RegionShapes
CONSTANTS Depth
Dirs == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<3, 4>>, <<4, 3>>, <<-3, 4>>, <<4, -3>>, <<-4, -3>>, <<3, -4>>, <<-3, -4>>, <<-4, 3>>}
Pick(v) ==
  LET k == R(1..10) IN
  CASE k = 1 -> [op |-> "overlap", v |-> R(BOOLEAN)]
    [] k = 2 -> [op |-> "append", v |-> v, w |-> R(4..40), t |-> R(0..1), n |-> R(0..3), how |-> R({"lc", "lcs", "mc", "mcs", "l", "m"}),
                 ls |-> << <<R(0..160), -9>>, <<R(0..200), 230>>, <<-9, R(0..100)>>, <<231, R(0..150)>> >>]
    [] OTHER -> LET one == R(1..2) = 1 IN [op |-> "swaths", v |-> IF one THEN <<v[1]>> ELSE v, one |-> one, d |-> R(Dirs), turn |-> R({0, 0, 0, 1, -1, 3}), w |-> R(5..90), f16 |-> R({16, 16, 1, 256}), off |-> R({<<0, 0>>, <<0, 0>>, <<500000, 4000000>>, <<-3000, 70000>>, <<-90, -400>>})]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E v \in {ARegion} : \E o \in {Pick(v)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
