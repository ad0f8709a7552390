---------------------------- MODULE BestAngleSim ----------------------------
(* Random regions, cost tables, objectives and steps for the best angle.      *)
EXTENDS RegionShapes
CONSTANTS Depth
Cost(k) == CASE k = 1 -> R(0..3) [] k = 2 -> R(-1000..1000) [] OTHER -> R(0..40)
RECURSIVE Costs(_, _)
Costs(k, n) == IF n = 0 THEN <<>> ELSE <<Cost(k)>> \o Costs(k, n - 1)
\* sometimes the best one is among the first or the last
Rigged(c, n, max) == IF R(1..2) = 1 THEN c ELSE [c EXCEPT ![R({1, 2, n - 1, n} \cap 1..n)] = IF max THEN 2000 ELSE -2000]
Degs == {7, 10, 11, 15, 18, 20, 30, 36, 40, 45, 50, 60, 72, 90, 100, 120, 170, 180, 360}
Pick(v, deg) ==
  LET k == R(1..12) w == R(15..90) IN
  CASE k = 1 -> [op |-> "default"]
    [] k = 2 -> LET m == R(BOOLEAN) IN [op |-> "table", v |-> <<v[1]>>, deg |-> 1, w |-> 60, max |-> m, fast |-> TRUE, costs |-> Rigged(TLCEval(Costs(2, 360)), 360, m)]
    [] k \in 3..8 -> LET m == R(BOOLEAN) IN [op |-> "table", v |-> v, deg |-> deg, w |-> w, max |-> m, fast |-> R(1..3) > 1,
                      costs |-> Rigged(TLCEval(Costs(R(1..3), 360 \div deg + 1)), 360 \div deg, m)]
    [] OTHER -> [op |-> "real", v |-> v, deg |-> deg, w |-> w, obj |-> R({"n", "len", "cov", "over", "mod"})]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E v \in {ARegion} : \E deg \in {R(Degs)} : \E o \in {Pick(v, deg)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
