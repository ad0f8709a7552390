------------------------------- MODULE Spline -------------------------------
(* A cubic spline through knots (integers).  It is observed at the thirds of *)
(* every interval, in ten-thousandths; four values determine a cubic piece,  *)
(* so slopes and curvatures at both ends follow from them exactly.           *)
EXTENDS Integers, Sequences, TLC
NoSpline == [xs |-> <<>>, ys |-> <<>>, mono |-> FALSE]
Increasing(x) == \A k \in 1..(Len(x) - 1) : x[k] < x[k + 1]
BadKnots(e) == e.op \in {"make", "set"} /\
               (Len(e.xs) # Len(e.ys) \/ Len(e.xs) < 2 \/ ~Increasing(e.xs))
PDo(s, e) ==
  IF e.op \in {"make", "set"} THEN
    IF BadKnots(e) THEN NoSpline ELSE [xs |-> e.xs, ys |-> e.ys, mono |-> e.mono]
  ELSE s
AbsV(v) == IF v < 0 THEN -v ELSE v
U == 10000
H(s, i) == s.xs[i + 1] - s.xs[i]
\* slope times 2h, curvature times h*h/9, from the four values
SlopeL(p) == -11 * p[1] + 18 * p[2] - 9 * p[3] + 2 * p[4]
SlopeR(p) == 11 * p[4] - 18 * p[3] + 9 * p[2] - 2 * p[1]
CurvL(p) == 2 * p[1] - 5 * p[2] + 4 * p[3] - p[4]
CurvR(p) == 2 * p[4] - 5 * p[3] + 4 * p[2] - p[1]
Near(a, b, tol) == AbsV(a - b) <= tol
Knots(s, r) ==
  /\ \A i \in DOMAIN s.ys : Near(r.knots[i], U * s.ys[i], 1)
  /\ \A i \in DOMAIN r.pieces :
       Near(r.pieces[i][1], U * s.ys[i], 1) /\ Near(r.pieces[i][4], U * s.ys[i + 1], 1)
Smooth(s, r) ==
  \A i \in 1..(Len(r.pieces) - 1) :
    Near(SlopeR(r.pieces[i]) * H(s, i + 1), SlopeL(r.pieces[i + 1]) * H(s, i), 25 * (H(s, i) + H(s, i + 1)))
Curved(s, r) ==
  /\ \A i \in 1..(Len(r.pieces) - 1) :
       Near(CurvR(r.pieces[i]) * H(s, i + 1) * H(s, i + 1), CurvL(r.pieces[i + 1]) * H(s, i) * H(s, i),
            8 * (H(s, i) * H(s, i) + H(s, i + 1) * H(s, i + 1)))
  /\ Near(CurvL(r.pieces[1]), 0, 8) /\ Near(CurvR(r.pieces[Len(r.pieces)]), 0, 8)
Straight(s) ==
  \A i \in 1..(Len(s.xs) - 2) :
    (s.ys[i + 1] - s.ys[i]) * H(s, i + 1) = (s.ys[i + 2] - s.ys[i + 1]) * H(s, i)
OnChords(s, r) ==
  \A i \in DOMAIN r.pieces : \A j \in 0..3 :
    Near(3 * r.pieces[i][j + 1], U * ((3 - j) * s.ys[i] + j * s.ys[i + 1]), 3)
Rises(s) == \A i \in 1..(Len(s.ys) - 1) : s.ys[i] <= s.ys[i + 1]
Falls(s) == \A i \in 1..(Len(s.ys) - 1) : s.ys[i] >= s.ys[i + 1]
Monotone(s, r) ==
  \A i \in DOMAIN r.pieces : \A j \in 1..3 :
    /\ Rises(s) => r.pieces[i][j] <= r.pieces[i][j + 1]
    /\ Falls(s) => r.pieces[i][j] >= r.pieces[i][j + 1]
PVerdict(s, e) ==
  IF BadKnots(e) THEN IF e.x # "" THEN <<>> ELSE <<"C25", "unusable knots were accepted">>
  ELSE IF e.x # "" THEN <<"C25", "unexpected exception " \o e.x>>
  ELSE IF e.op # "eval" \/ s.xs = <<>> THEN <<>>
  ELSE IF ~Knots(s, e.r) THEN <<"C25", "the spline misses a knot">>
  ELSE IF ~Smooth(s, e.r) THEN <<"C25", "the slope jumps at a knot">>
  ELSE IF ~s.mono /\ ~Curved(s, e.r) THEN <<"C25", "the curvature jumps at a knot or is not zero at the ends">>
  ELSE IF Straight(s) /\ ~OnChords(s, e.r) THEN <<"C25", "a straight line is not reproduced">>
  ELSE IF s.mono /\ ~Monotone(s, e.r) THEN <<"C25", "monotone data is overshot">>
  ELSE <<>>
=============================================================================
