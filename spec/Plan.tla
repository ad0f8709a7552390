-------------------------------- MODULE Plan --------------------------------
(* Planned paths (C14).  A route is a sequence of parts, each a connection     *)
(* (points, in metres) and the swaths (point sequences) driven after it,       *)
(* possibly none.  The turns are made by the driver: a turn is the straight     *)
(* drive from one pose to the other in three states.  r.path is the planned     *)
(* path: states <<x, y, cos, sin, len, dir, type, vel>> with lengths in mm and  *)
(* cosines times 10^5.  r.calls lists the turns asked for, in order:            *)
(* <<distance, cos, sin of the start angle, cos, sin of the end angle>>         *)
(* relative to the line from start to end.                                      *)
EXTENDS Integers, Sequences, TLC, Json
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
Last(s) == s[Len(s)]
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Zero == <<0, 0>>
\* curvature limit (per km), its change (per km m), bounds of the smooth turning radius in mm
Robots == << <<1000, 10000, 1000, 1100>>, <<500, 10000, 2000, 2100>>, <<1000, 500, 1400, 1600>>, <<200, 200, 4950, 5100>> >>
\* unit vector c, s (times 10^5) points along v; any direction does when v is zero
Along(c, s, v) == v = Zero \/ (Abs(c * v[2] - s * v[1]) <= 3 * (Abs(v[1]) + Abs(v[2])) /\ c * v[1] + s * v[2] > 0)
AtP(x, y, p) == Near(x, 1000 * p[1], 1) /\ Near(y, 1000 * p[2], 1)
Out(sw) == Sub(sw[2], sw[1])
OutDir(sw) == Sub(Last(sw), sw[Len(sw) - 1])
\* --- what has to be driven: legs ---
RECURSIVE GroupLegs(_, _)
GroupLegs(g, i) == IF i > Len(g) THEN <<>> ELSE
  (IF i = 1 THEN <<>> ELSE << [k |-> "turn", s1 |-> g[i - 1], s2 |-> g[i]] >>) \o << [k |-> "swath", s |-> g[i]] >> \o GroupLegs(g, i + 1)
RECURSIVE Legs(_, _, _, _)
\* from part i on: mp collects the points since the last swath, prev is that swath or <<>>
Legs(parts, i, mp, prev) ==
  IF i > Len(parts) THEN (IF mp = <<>> THEN <<>> ELSE << [k |-> "con", prev |-> prev, mp |-> mp, next |-> <<>>] >>)
  ELSE LET m == mp \o parts[i].con g == parts[i].swaths IN
       IF g = <<>> THEN Legs(parts, i + 1, m, prev)
       ELSE << [k |-> "con", prev |-> prev, mp |-> m, next |-> g[1]] >> \o GroupLegs(g, 1) \o Legs(parts, i + 1, <<>>, Last(g))
\* poses: position and heading vector
PoseA(l) == IF l.prev # <<>> THEN [p |-> Last(l.prev), v |-> OutDir(l.prev)]
            ELSE [p |-> l.mp[1], v |-> IF Len(l.mp) > 1 THEN Sub(l.mp[2], l.mp[1]) ELSE IF l.next # <<>> THEN Sub(l.next[1], l.mp[1]) ELSE Zero]
PoseB(l) == IF l.next # <<>> THEN [p |-> l.next[1], v |-> Out(l.next)]
            ELSE [p |-> Last(l.mp), v |-> IF Len(l.mp) > 1 THEN Sub(Last(l.mp), l.mp[Len(l.mp) - 1]) ELSE IF l.prev # <<>> THEN Sub(Last(l.mp), Last(l.prev)) ELSE Zero]
NoDrive(l) == (l.prev = <<>> /\ (l.mp = <<>> \/ (l.next = <<>> /\ Len(l.mp) = 1))) \/ (l.next = <<>> /\ l.mp = <<>>)
\* reaching the only point of a connection from where it already is
May0(l) == \/ l.prev = <<>> /\ Len(l.mp) = 1 /\ l.next # <<>> /\ l.mp[1] = l.next[1]
           \/ l.next = <<>> /\ Len(l.mp) = 1 /\ l.prev # <<>> /\ l.mp[1] = Last(l.prev)
StartsAt(c, a) == AtP(c[1], c[2], a.p) /\ Along(c[3], c[4], a.v)
EndsAt(c, b) == AtP(c[5], c[6], b.p) /\ Along(c[7], c[8], b.v)
\* calls n and n+1 meet
Meet(c, d) == Near(c[5], d[1], 1) /\ Near(c[6], d[2], 1) /\ Near(c[7], d[3], 2) /\ Near(c[8], d[4], 2)
\* the intermediate pose of a call is on step j of the connection
OnStep(c, mp, j) ==
  LET a == mp[j] b == mp[j + 1] v == Sub(b, a) x == c[5] - 1000 * a[1] y == c[6] - 1000 * a[2] IN
  /\ Abs(x * v[2] - y * v[1]) <= 3 * (Abs(v[1]) + Abs(v[2]))
  /\ x * v[1] + y * v[2] >= 0 /\ x * v[1] + y * v[2] <= 1000 * (v[1] * v[1] + v[2] * v[2]) + 10
  /\ Along(c[7], c[8], v)
\* call n ends on a step at or after step j: the first such step, 0 if none
FirstStep(c, mp, j) == LET s == {i \in j..(Len(mp) - 1) : mp[i] # mp[i + 1] /\ OnStep(c, mp, i)} IN
  IF s = {} THEN 0 ELSE CHOOSE i \in s : \A k \in s : i <= k
RECURSIVE InOrder(_, _, _, _, _)
InOrder(cs, n, to, mp, j) == IF n > to THEN TRUE ELSE LET i == FirstStep(cs[n], mp, j) IN i # 0 /\ InOrder(cs, n + 1, to, mp, i)
\* corners of a connection: inner points where it turns
Same2(u, v) == u[1] * v[2] = u[2] * v[1] /\ u[1] * v[1] + u[2] * v[2] > 0
Corners(mp) == {i \in 2..(Len(mp) - 1) : ~Same2(Sub(mp[i], mp[i - 1]), Sub(mp[i + 1], mp[i]))}
\* some corner turns by less than about 0.2 rad: such corners may be cut
Slight(mp) == \E i \in Corners(mp) : LET u == Sub(mp[i], mp[i - 1]) v == Sub(mp[i + 1], mp[i])
                 d == u[1] * v[1] + u[2] * v[2] IN d > 0 /\ 5 * Abs(u[1] * v[2] - u[2] * v[1]) <= d
OnlyCorners(mp) == LET cs == Corners(mp) f[i \in 0..Len(mp)] == IF i = 0 THEN <<>> ELSE IF i \in cs \cup {1, Len(mp)} THEN Append(f[i - 1], mp[i]) ELSE f[i - 1] IN f[Len(mp)]
Twice(mp) == \E i \in 1..(Len(mp) - 1) : mp[i] = mp[i + 1]
Far(p, q, d) == LET v == Sub(p, q) IN v[1] * v[1] + v[2] * v[2] > d * d
Round(x) == x \div 1000 + 1
\* corners that must be driven past: away from both ends and from every other corner
RECURSIVE Dedup(_)
Dedup(mp) == IF Len(mp) < 2 THEN mp ELSE IF mp[1] = mp[2] THEN Dedup(Tail(mp)) ELSE <<mp[1]>> \o Dedup(Tail(mp))
Needed(l, rb) ==
  LET cs == Corners(l.mp) r == 8 * Round(rb[4]) IN
  IF ~Far(PoseA(l).p, PoseB(l).p, r) THEN {}
  ELSE {i \in cs : /\ \E j \in cs : j < i
                   /\ \E j \in cs : j > i
                   /\ Far(l.mp[i], PoseA(l).p, r) /\ Far(l.mp[i], PoseB(l).p, r)
                   /\ \A j \in cs : j # i => Far(l.mp[i], l.mp[j], r)}
Passed(cs, from, to, l, i, rb) == \E n \in from..to :
  /\ OnStep(cs[n], l.mp, i - 1)
  /\ LET x == cs[n][5] - 1000 * l.mp[i][1] y == cs[n][6] - 1000 * l.mp[i][2] IN Abs(x) <= rb[4] /\ Abs(y) <= rb[4]
\* --- the driven states ---
\* distance between two states equals a length; in mm when close, in cm when far
DistTol(dx, dy, len, t) ==
  IF Abs(dx) + Abs(dy) <= 20000 /\ len <= 20000 THEN LET d2 == dx * dx + dy * dy IN d2 <= (len + t) * (len + t) /\ (len <= t \/ d2 >= (len - t) * (len - t))
  ELSE LET x == dx \div 10 y == dy \div 10 n == len \div 10 d2 == x * x + y * y IN d2 <= (n + 4 + t \div 10) * (n + 4 + t \div 10) /\ d2 >= (n - 4 - t \div 10) * (n - 4 - t \div 10)
DistIs(dx, dy, len) == DistTol(dx, dy, len, 3)
\* poses in between keep away from both ends of the connection and from each other: coordinates in mm, radius in mm
Away(x, y, px, py, r) == LET a == (x - px) \div 10 b == (y - py) \div 10 IN Abs(a) > 3 * (r \div 10) - 10 \/ Abs(b) > 3 * (r \div 10) - 10 \/ a * a + b * b > (3 * (r \div 10) - 10) * (3 * (r \div 10) - 10)
Apart(c, l, rb) == LET a == PoseA(l).p b == PoseB(l).p IN
  /\ Away(c[5], c[6], c[1], c[2], rb[3]) /\ Away(c[5], c[6], 1000 * a[1], 1000 * a[2], rb[3]) /\ Away(c[5], c[6], 1000 * b[1], 1000 * b[2], rb[3])
\* the turn asked for is the one between two swaths
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
\* cos, sin (times 10^5) stand for the angle from w to v, mirrored when m = -1
AngIs(c, s, w, v, m) == LET tol == 4 * (Abs(Dot(w, v)) + Abs(Cross(w, v))) IN
  Abs(c * Cross(w, v) - m * s * Dot(w, v)) <= tol /\ c * Dot(w, v) + m * s * Cross(w, v) > 0
CallOk(c, s1, s2) ==
  LET w == Sub(s2[1], Last(s1)) d2 == w[1] * w[1] + w[2] * w[2] IN
  /\ DistIs(1000 * w[1], 1000 * w[2], c[1])
  /\ (w # Zero => \E m \in {1, -1} : AngIs(c[2], c[3], w, OutDir(s1), m) /\ AngIs(c[4], c[5], w, Out(s2), m))
RECURSIVE LenSum(_, _, _)
LenSum(p, i, j) == IF i > j THEN 0 ELSE p[i][5] + LenSum(p, i + 1, j)
TurnState(s, vel) == s[7] = 2 /\ s[8] = vel /\ s[6] = 1
\* states i..j of the path are the drive of call c
DriveOk(p, i, j, c, vel) ==
  /\ i <= j /\ j <= Len(p)
  /\ \A k \in i..j : TurnState(p[k], vel)
  /\ Near(p[i][1], c[1], 2) /\ Near(p[i][2], c[2], 2) /\ Near(p[i][3], c[3], 3) /\ Near(p[i][4], c[4], 3)
  /\ \A k \in i..(j - 1) : DistIs(p[k + 1][1] - p[k][1], p[k + 1][2] - p[k][2], p[k][5])
  /\ DistIs(c[5] - p[j][1], c[6] - p[j][2], p[j][5])
  /\ DistTol(c[5] - c[1], c[6] - c[2], LenSum(p, i, j), 3 + (j - i) \div 2)
SwathOk(p, i, s, vel) ==
  /\ i + Len(s) - 2 <= Len(p)
  /\ \A k \in 1..(Len(s) - 1) : LET t == p[i + k - 1] v == Sub(s[k + 1], s[k]) IN
       /\ AtP(t[1], t[2], s[k]) /\ Along(t[3], t[4], v) /\ DistIs(1000 * v[1], 1000 * v[2], t[5])
       /\ t[6] = 1 /\ t[7] = 1 /\ t[8] = vel
\* first swath state at or after i
NextSwath(p, i) == LET s == {k \in i..Len(p) : p[k][7] = 1} IN IF s = {} THEN Len(p) + 1 ELSE CHOOSE k \in s : \A m \in s : k <= m
\* the turn of three states from i on, as the pose it starts at and the pose it ends at
Triple(p, i) == <<p[i][1], p[i][2], p[i][3], p[i][4], p[i + 2][1], p[i + 2][2], p[i + 2][3], p[i + 2][4]>>
\* turns of three states from i on, at most until the next swath
Triples(p, i) == LET n == (NextSwath(p, i) - i) \div 3 IN [k \in 1..n |-> Triple(p, i + 3 * (k - 1))]
\* whether the turns asked for were written down
Logged(e) == "calls" \in DOMAIN e.r
\* legs from number l on match the path from i on and the turns from n on
RECURSIVE Drives(_, _, _, _, _, _)
Drives(e, legs, l, i, n, rb) ==
  LET p == e.r.path IN
  IF l > Len(legs) THEN i = Len(p) + 1 /\ (Logged(e) => n = Len(e.r.calls) + 1)
  ELSE LET g == legs[l] IN
    CASE g.k = "swath" -> SwathOk(p, i, g.s, e.cruise) /\ Drives(e, legs, l + 1, i + Len(g.s) - 1, n, rb)
      [] g.k = "turn" ->
           LET j == NextSwath(p, i) a == Last(g.s1) b == g.s2[1] IN
           /\ (Logged(e) => n <= Len(e.r.calls) /\ CallOk(e.r.calls[n], g.s1, g.s2))
           /\ i < j /\ StartsAt(Triple(<<p[i], p[i], p[i]>>, 1), [p |-> a, v |-> OutDir(g.s1)])
           /\ DriveOk(p, i, j - 1, <<1000 * a[1], 1000 * a[2], p[i][3], p[i][4], 1000 * b[1], 1000 * b[2]>>, e.turn)
           /\ Drives(e, legs, l + 1, j, n + 1, rb)
      [] OTHER ->
           IF NoDrive(g) THEN Drives(e, legs, l + 1, i, n, rb)
           ELSE \/ May0(g) /\ Drives(e, legs, l + 1, i, n, rb)
                \/ LET cs == Triples(p, i) ends == {m \in 1..Len(cs) : EndsAt(cs[m], PoseB(g))} IN
                   /\ ends # {} /\ StartsAt(cs[1], PoseA(g))
                   /\ LET m == CHOOSE x \in ends : \A y \in ends : x <= y IN
                      /\ \A k \in 1..(m - 1) : Meet(cs[k], cs[k + 1])
                      /\ \A k \in 1..(m - 1) : Apart(cs[k], g, rb)
                      /\ (~Slight(Dedup(g.mp)) =>
                           /\ InOrder(cs, 1, m - 1, g.mp, 1)
                           /\ (~Twice(g.mp) => LET d == [g EXCEPT !.mp = OnlyCorners(@)] IN \A c \in Needed(d, rb) : Passed(cs, 1, m - 1, d, c, rb)))
                      /\ \A k \in 1..m : DriveOk(p, i + 3 * (k - 1), i + 3 * k - 1, cs[k], e.turn)
                      /\ Drives(e, legs, l + 1, i + 3 * m, n + m, rb)
PlanOk(e) == Drives(e, IF e.op = "group" THEN GroupLegs(e.swaths, 1) ELSE Legs(e.parts, 1, <<>>, <<>>), 1, 1, 1, Robots[e.robot])
PWhy(S, e) ==
  IF e.x # "" THEN <<"C14", "unexpected exception " \o e.x>>
  ELSE IF PlanOk(e) THEN <<>> ELSE <<"C14", "the path does not drive the route in order without gaps">>
=============================================================================
