------------------------------- MODULE PlanSim -----------------------------
(* Random routes, built as they are driven.                                   *)
EXTENDS Plan
CONSTANTS Depth
VARIABLES hist
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
Steps8 == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<1, 1>>, <<-1, 1>>, <<1, -1>>, <<-1, -1>>}
Move(p, u, l) == <<p[1] + u[1] * l, p[2] + u[2] * l>>
RECURSIVE Walk(_, _)
\* n steps from p (without p)
Walk(p, n) == IF n = 0 THEN <<>> ELSE LET q == Move(p, R(Steps8), R({R(1..9), R(1..30), R(30..60)})) IN <<q>> \o Walk(q, n - 1)
RECURSIVE Poly(_, _)
Poly(p, n) == IF n = 0 THEN <<>> ELSE LET d == <<R(-20..20), R(-20..20)>> q == IF d = <<0, 0>> THEN <<p[1] + 1, p[2]>> ELSE <<p[1] + d[1], p[2] + d[2]>> IN <<q>> \o Poly(q, n - 1)
Jump(p) == IF R(1..2) = 1 THEN p ELSE <<p[1] + R(-6..6), p[2] + R(-6..6)>>
ASwath(p) == <<p>> \o Poly(p, R({1, 1, 2, 3}))
RECURSIVE Group(_, _)
Group(p, n) == IF n = 0 THEN <<>> ELSE LET s == ASwath(p) IN <<s>> \o Group(Jump(Last(s)), n - 1)
\* a connection from p on: from p itself, or from elsewhere, or nothing
Con(p) == LET k == R(1..12) IN
  CASE k = 1 -> <<>> [] k = 2 -> <<p>> [] k = 3 -> Walk(p, 1) [] k = 4 -> Walk(p, R(2..4))
    [] k \in 5..8 -> <<p>> \o Walk(p, R(1..3)) [] OTHER -> <<p>> \o Walk(p, R(4..7))
RECURSIVE Parts(_, _)
Parts(p, n) == IF n = 0 THEN <<>> ELSE
  LET c == Con(p) q == Jump(IF c = <<>> THEN p ELSE Last(c))
      g == IF R(1..9) = 1 THEN <<>> ELSE Group(q, R({1, 1, 2, 3})) IN
  << [con |-> c, swaths |-> g] >> \o Parts(IF g = <<>> THEN (IF c = <<>> THEN p ELSE Last(c)) ELSE Last(Last(g)), n - 1)
P0 == <<R(-50..50), R(-50..50)>>
Pick == IF R(1..5) = 1 THEN [op |-> "group", swaths |-> Group(P0, R(0..4)), robot |-> R(1..4), cruise |-> R(2..5), turn |-> R(1..2)]
        ELSE LET ps == Parts(P0, R(1..3)) IN
             [op |-> "route", parts |-> ps, tail |-> R(1..2) = 1, robot |-> R(1..4), cruise |-> R(2..5), turn |-> R(1..2)]
\* a route ends with a connection when its last part has no swaths
Fix(o) == IF o.op = "group" THEN o ELSE IF o.tail THEN [o EXCEPT !.parts = Append(@, [con |-> Con(P0), swaths |-> <<>>])] ELSE o
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Fix(Pick)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
