------------------------------- MODULE Curve -------------------------------
(* Curve generators (C28).  The curve library behind them is played by the     *)
(* scenario: it answers the states e.states (points in eighths of a metre,      *)
(* angles in twelfths of pi, direction), and says with e.controls of what       *)
(* pieces the curve of each attempt consists (tenths of a full turn, signed).   *)
(* e.r.asked lists what it was asked for: limits times 10^6, poses with         *)
(* coordinates in mm and cosines times 10^5.  e.r.path is the turn that the     *)
(* generator made of it.  Curvatures are given per km.                          *)
EXTENDS Integers, Sequences, TLC, Json
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
CosTab == <<100000, 96593, 86603, 70711, 50000, 25882, 0, -25882, -50000, -70711, -86603, -96593, -100000, -96593, -86603, -70711, -50000, -25882, 0, 25882, 50000, 70711, 86603, 96593>>
Cos(k) == CosTab[(k % 24) + 1]
Sin(k) == CosTab[((k + 18) % 24) + 1]
\* --- what has to be asked for ---
Pose(o, x, y, a, k) == Near(o[1], x, 1) /\ Near(o[2], y, 1) /\ Near(o[3], Cos(a), 2) /\ Near(o[4], Sin(a), 2) /\ Near(o[5], k, 1) /\ o[6] = 0
Names == <<"dubins", "dubinscc", "reeds", "reedshc">>
\* a curve loops when one piece turns by more than 0.9, all together by more
\* than 0.9, or to and fro by more than 1.5 full turns
RECURSIVE Sum(_)
Sum(c) == IF c = <<>> THEN 0 ELSE c[1] + Sum(Tail(c))
RECURSIVE SumAbs(_)
SumAbs(c) == IF c = <<>> THEN 0 ELSE Abs(c[1]) + SumAbs(Tail(c))
Pieces(c) == Len(c) > 0 /\ \E i \in 1..Len(c) : 20 * Abs(c[i]) > 360
\* one piece of m stands for m/20 full turns
Loops(c) == Pieces(c) \/ Abs(Sum(c)) > 18 \/ SumAbs(c) > 30
Attempt(cs, n) == IF cs = <<>> THEN <<>> ELSE IF n < Len(cs) THEN cs[n + 1] ELSE cs[Len(cs)]
RECURSIVE Eased(_, _)
\* after how many attempts the curve is taken: the first without loop, at last the 21st
Eased(cs, n) == IF n > 20 \/ ~Loops(Attempt(cs, n)) THEN n ELSE Eased(cs, n + 1)
\* limits in 10^-6, from limits in 10^-3, eased n times
Curv(k, n) == (k * 100000) \div (100 + 5 * n)
Diff(k, n) == (k * 10000) \div (10 + 2 * n)
Limits(e, o, n, sharp) == Near(o.k, Curv(e.curv, n), 2) /\ (IF sharp THEN o.s = 0 ELSE Near(o.s, Diff(e.diff, n), 2))
AskedOk(s, e) ==
  /\ Len(e.r.asked) = 1
  /\ LET o == e.r.asked[1] IN
     IF e.op = "simple" THEN
       /\ o.name = Names[e.gen]
       /\ Limits(e, o, IF e.gen = 2 THEN Eased(e.controls, 0) ELSE 0, e.gen \in {1, 3})
       /\ (e.gen \in {1, 2} => o.fwd)
       /\ o.disc = 1000 * s.disc
       /\ Pose(o.a, 0, 0, e.a, 0) /\ Pose(o.b, 125 * e.d, 0, e.b, 0)
     ELSE
       /\ o.name = "ccany"
       /\ Limits(e, o, IF e.fix THEN Eased(e.controls, 0) ELSE 0, FALSE)
       /\ o.fwd /\ o.disc = 1000 * s.disc
       /\ Pose(o.a, 125 * e.p[1], 125 * e.p[2], e.a, 1000 * e.ka) /\ Pose(o.b, 125 * e.t[1], 125 * e.t[2], e.b, 1000 * e.kb)
\* --- what is made of the answer ---
DistIs(dx, dy, len) == dx * dx + dy * dy <= (len + 2) * (len + 2) /\ (len <= 2 \/ dx * dx + dy * dy >= (len - 2) * (len - 2))
KeptOk(e) ==
  LET p == e.r.path q == e.states n == Len(q) IN
  /\ Len(p) = n
  /\ \A i \in 1..n :
       /\ Near(p[i][1], 125 * q[i][1], 1) /\ Near(p[i][2], 125 * q[i][2], 1)
       /\ Near(p[i][3], Cos(q[i][3]), 2) /\ Near(p[i][4], Sin(q[i][3]), 2)
       /\ (IF i = n THEN p[i][5] = 0 ELSE DistIs(125 * (q[i + 1][1] - q[i][1]), 125 * (q[i + 1][2] - q[i][2]), p[i][5]))
       /\ p[i][6] = q[i][4] /\ p[i][7] = 2 /\ p[i][8] = 1000 * (IF e.vel = 0 THEN 1 ELSE e.vel)
VStart == [disc |-> 10]
VDo(s, e) == IF e.op = "disc" THEN [s EXCEPT !.disc = e.v] ELSE s
VWhy(s, e) ==
  IF e.x # "" THEN <<"C28", "unexpected exception " \o e.x>>
  ELSE IF e.op = "disc" THEN (IF e.r = [i \in 1..4 |-> e.v] THEN <<>> ELSE <<"C28", "the discretization that was set">>)
  ELSE IF ~AskedOk(s, e) THEN <<"C28", "the curve asked for is not the requested one">>
  ELSE IF ~KeptOk(e) THEN <<"C28", "the turn is not the curve that was found">>
  ELSE <<>>
=============================================================================
