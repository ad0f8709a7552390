------------------------------ MODULE CurveSim ------------------------------
EXTENDS Curve
CONSTANTS Depth
VARIABLES hist
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
RECURSIVE Some(_, _)
Piece == R({0, 3, 5, 8, 10, 14, 17, 17, 19, 25, 40, -4, -9, -13, -17, -19, -33})
Some(n, c) == IF n = 0 THEN c ELSE Some(n - 1, Append(c, Piece))
\* clear of the thresholds
Clear(c) == Abs(Sum(c)) # 18 /\ SumAbs(c) # 30
Curve1(X) == LET c == Some(R(0..X), <<>>) IN IF Clear(c) THEN c ELSE <<19>>
RECURSIVE Curves(_, _)
Curves(n, c) == IF n = 0 THEN c ELSE Curves(n - 1, Append(c, Curve1(4)))
Looping(n) == [i \in 1..n |-> <<R({19, 25, -20, -40})>>]
Controls == LET k == R(1..5) IN IF k = 1 THEN <<>> ELSE IF k = 2 THEN Looping(R({1, 2, 5, 19, 20, 21, 22, 23, 25})) \o <<Curve1(3)>> ELSE Curves(R(1..6), <<>>)
RECURSIVE States(_, _)
States(n, c) == IF n = 0 THEN c ELSE States(n - 1, Append(c, <<R(-40..40), R(-40..40), R(0..23), R({1, 1, 1, -1})>>))
Ang == R(0..23)
Rob == [curv |-> R({100, 200, 500, 1000, 1250}), diff |-> R({50, 200, 1000, 4000}), vel |-> R({0, 1, 2, 3, 7})]
Pick == LET k == R(1..8) IN
  CASE k = 1 -> [op |-> "disc", v |-> R({1, 5, 10, 50, 100, 1000})]
    [] k \in 2..5 -> [op |-> "simple", gen |-> R({1, 2, 2, 2, 3, 4}), d |-> R({0, 1, 8, 17, 40, 400}), a |-> Ang, b |-> Ang, controls |-> Controls, states |-> States(R(0..6), <<>>)] @@ Rob
    [] OTHER -> [op |-> "constrained", p |-> <<R(-80..80), R(-80..80)>>, t |-> <<R(-80..80), R(-80..80)>>, a |-> Ang, b |-> Ang, ka |-> R({0, 0, 100, -200, 500}), kb |-> R({0, 0, 100, -200, 500}),
                 fix |-> R({TRUE, FALSE}), controls |-> Controls, states |-> States(R(0..6), <<>>)] @@ Rob
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
