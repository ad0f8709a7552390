------------------------------ MODULE WholeSim ------------------------------
EXTENDS RectShapes
CONSTANT Depth
Twice(c) == [j \in 1..Len(c) |-> [k \in 1..Len(c[j]) |-> <<2 * c[j][k][1], 2 * c[j][k][2]>>]]
Doubled(cs) == [i \in 1..Len(cs) |-> Twice(cs[i])]
Places == << <<"UTM:31N datum:ETRS89", 500000, 4600000>>, <<"UTM:31S datum:WGS84", 480000, 8000000>>, <<"UTM:32N datum:WGS84", 520000, 300000>> >>
Pick ==
  LET kind == R({"cell", "cells", "cells", "local", "local", "geo", "utm"})
      def == R(1..14) = 1
      best == def \/ R(1..7) = 1
      p == Places[R(1..3)]
      cs == Doubled(Fields(IF kind = "cell" THEN 2 ELSE R(1..3)))
      w == R({2, 2, 2, 4, 6})
      off == IF kind \in {"cell", "cells"} THEN R({<<0, 0>>, <<-40, 100>>, <<500000, 4600000>>}) ELSE <<p[2], p[3]>>
  IN [op |-> "plan", kind |-> kind, def |-> def, cells |-> cs, crs |-> p[1], off |-> off,
      w |-> w, cw |-> R({2, 6, 6, 10}), n |-> IF def THEN 3 ELSE R(IF w = 2 THEN {0, 1, 2, 3} ELSE {0, 1, 1}), hg |-> IF def THEN "const" ELSE R({"none", "const", "const", "const"}),
      sg |-> IF best THEN "best" ELSE "angle", d |-> R(0..3), obj |-> IF def THEN 0 ELSE R(0..4), pp |-> IF def THEN 1 ELSE R(1..4),
      robot |-> R(1..4), cruise |-> R({1, 2, 5}), turn |-> R({1, 3, 4})]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
