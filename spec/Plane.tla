-------------------------------- MODULE Plane --------------------------------
(* Angles, vectors and moves in the plane (C26).  There is no history: every *)
(* event is one question with the answer the library gave.  Angles are whole  *)
(* degrees; a direction is <<x, y, h>> with x*x + y*y = h*h, so that every    *)
(* cosine and sine is a fraction of integers and all oracles are exact.  An   *)
(* angle answered for such a direction comes as <<cos, sin>> times 10^5 and   *)
(* a flag that it is in [0, 2 pi); coordinates come times 10^3 or 10^4.       *)
EXTENDS Integers, Sequences, TLC, Json
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Add(p, d) == <<p[1] + d[1], p[2] + d[2], p[3] + d[3]>>
Sub(p, d) == <<p[1] - d[1], p[2] - d[2], p[3] - d[3]>>
Mul(p, f) == <<p[1] * f, p[2] * f, p[3] * f>>
Det(u, v) == u[1] * v[2] - u[2] * v[1]
Dot2(u, v) == u[1] * v[1] + u[2] * v[2]
Dot3(u, v) == Dot2(u, v) + u[3] * v[3]
\* --- angles ---
Mod(a) == a % 360
\* distance on a circle of n
Gap(a, b, n) == LET d == (b - a) % n IN Min(d, n - d)
Diff(a, b) == Gap(a, b, 360)
\* m2 half degrees bisect the smaller angle between a and b (both, if opposite)
Bisects(m2, a, b) == Gap(m2, 2 * a, 720) = Diff(a, b) /\ Gap(m2, 2 * b, 720) = Diff(a, b)
Continues(r, prev, val) == Mod(r) = Mod(val) /\ Abs(r - prev) <= 180
\* --- directions: cosine x/h and sine y/h ---
Unit == 100000
Near(a, b, tol) == Abs(a - b) <= tol
IsAngle(r, x, y, h) == r.inrange /\ Abs(r.c) <= Unit + 1 /\ Abs(r.s) <= Unit + 1
                       /\ Near(r.c * h, x * Unit, 2 * h) /\ Near(r.s * h, y * Unit, 2 * h)
\* --- moving and turning ---
Child(k) == CASE k \in {"line", "ring", "mp", "pts"} -> "pt" [] k = "ml" -> "line" [] k = "cell" -> "ring" [] k = "cells" -> "cell"
\* p turned about c by the direction d; p - c is a multiple of d[3]
Turned(p, c, d) == LET u == Sub(p, c) IN
  <<c[1] + (d[1] * u[1] - d[2] * u[2]) \div d[3], c[2] + (d[2] * u[1] + d[1] * u[2]) \div d[3], p[3]>>
RECURSIVE TurnAll(_, _, _, _)
TurnAll(k, v, c, d) == IF k = "pt" THEN Turned(v, c, d) ELSE [i \in 1..Len(v) |-> TurnAll(Child(k), v[i], c, d)]
RECURSIVE ShiftAll(_, _, _, _)
ShiftAll(k, v, d, how) ==
  IF k = "pt" THEN CASE how = "add" -> Add(v, d) [] how = "sub" -> Sub(v, d) [] OTHER -> Sub(d, v)
  ELSE [i \in 1..Len(v) |-> ShiftAll(Child(k), v[i], d, how)]
\* --- lines and segments ---
\* nearest point of segment s-t to p is s + v * T/V
Foot(p, s, t) == LET v == Sub(t, s) V == Dot2(v, v) T == Dot2(Sub(p, s), v) IN
  IF V = 0 THEN [x |-> s[1], y |-> s[2], V |-> 1]
  ELSE LET c == Max(0, Min(T, V)) IN [x |-> s[1] * V + v[1] * c, y |-> s[2] * V + v[2] * c, V |-> V]
\* the same in space
Foot3(p, s, t) == LET v == Sub(t, s) V == Dot3(v, v) T == Dot3(Sub(p, s), v) IN
  IF V = 0 THEN [x |-> s[1], y |-> s[2], z |-> s[3], V |-> 1]
  ELSE LET c == Max(0, Min(T, V)) IN [x |-> s[1] * V + v[1] * c, y |-> s[2] * V + v[2] * c, z |-> s[3] * V + v[3] * c, V |-> V]
\* its squared distance as a fraction
Dist2(p, s, t) == LET v == Sub(t, s) V == Dot2(v, v) T == Dot2(Sub(p, s), v) d == Det(v, Sub(p, s)) IN
  IF V = 0 \/ T <= 0 THEN <<Dot2(Sub(p, s), Sub(p, s)), 1>>
  ELSE IF T >= V THEN <<Dot2(Sub(p, t), Sub(p, t)), 1>> ELSE <<d * d, V>>
Le(f, g) == f[1] * g[2] <= g[1] * f[2]
\* r, scaled, is n/d (r is known to be of moderate size)
IsFrac(r, n, d, scale) == Abs(r) <= scale * (Abs(n) \div Abs(d) + 1) /\ Near(r * d, n * scale, 2 * Abs(d))
AtFoot(r, f) == IsFrac(r[1], f.x, f.V, 1000) /\ IsFrac(r[2], f.y, f.V, 1000)
NearestOf(r, p, line) ==
  IF Len(line) = 1 THEN r[1] = 1000 * line[1][1] /\ r[2] = 1000 * line[1][2]
  ELSE \E i \in 1..(Len(line) - 1) :
         /\ AtFoot(r, Foot(p, line[i], line[i + 1]))
         /\ \A j \in 1..(Len(line) - 1) : Le(Dist2(p, line[i], line[i + 1]), Dist2(p, line[j], line[j + 1]))
Segs(line) == [i \in 1..(IF Len(line) = 0 THEN 0 ELSE Len(line) - 1) |-> <<line[i], line[i + 1]>>]
RECURSIVE Cat(_, _)
Cat(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Cat(s, i + 1)
Rings(k, v) == IF k = "cell" THEN v ELSE IF k = "cells" THEN Cat(v, 1) ELSE IF k = "line" THEN <<v>> ELSE v
\* --- polylines: vertex i of points along the eight compass directions ---
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Compass(v) == LET x == Sgn(v[1]) y == Sgn(v[2]) IN
  CASE <<x, y>> = <<1, 0>> -> 0 [] <<x, y>> = <<1, 1>> -> 45 [] <<x, y>> = <<0, 1>> -> 90 [] <<x, y>> = <<-1, 1>> -> 135
    [] <<x, y>> = <<-1, 0>> -> 180 [] <<x, y>> = <<-1, -1>> -> 225 [] <<x, y>> = <<0, -1>> -> 270 [] OTHER -> 315
InAng(v, i) == Compass(Sub(v[i], v[i - 1]))
OutAng(v, i) == Compass(Sub(v[i + 1], v[i]))
\* one answer {x, a2}: exception or half degrees modulo 720
Refused(r) == r.x \in {"invalid_argument", "out_of_range"}
VertexOk(v, e) ==
  LET n == Len(v) i == e.i r == e.r IN
  /\ (IF i >= 2 /\ i <= n THEN r["in"].x = "" /\ r["in"].a2 % 720 = 2 * InAng(v, i) ELSE Refused(r["in"]) /\ (i = 1 => r["in"].x = "invalid_argument"))
  /\ (IF i >= 1 /\ i < n THEN r.out.x = "" /\ r.out.a2 % 720 = 2 * OutAng(v, i) ELSE Refused(r.out) /\ (i = n => r.out.x = "invalid_argument"))
  /\ (IF n < 2 \/ i < 1 \/ i > n THEN Refused(r.at) /\ (n < 2 => r.at.x = "invalid_argument")
      ELSE /\ r.at.x = ""
           /\ IF i = 1 THEN r.at.a2 % 720 = 2 * OutAng(v, 1)
              ELSE IF i = n THEN r.at.a2 % 720 = 2 * InAng(v, n)
              ELSE Bisects(r.at.a2, InAng(v, i), OutAng(v, i)))
\* --- verdict ---
PW(why) == <<"C26", why>>
Ok(c, why) == IF c THEN <<>> ELSE PW(why)
PVerdict(e) ==
  IF e.x # "" THEN PW("unexpected exception " \o e.x)
  ELSE LET r == e.r IN
  CASE e.op = "mod" -> Ok(r.inrange /\ Mod(r.v) = Mod(e.a), "the angle is not the same one in [0, 2 pi)")
    [] e.op = "diff" -> Ok(r = Diff(e.a, e.b), "the difference of two angles is not the smaller angle between them")
    [] e.op = "avg" -> Ok(Bisects(r, e.a, e.b), "the average of two angles does not lie halfway between them")
    [] e.op = "cont" -> Ok(Continues(r, e.a, e.b), "the continued angle is another angle or not the nearest")
    [] e.op = "conts" -> Ok(/\ Len(r) = Len(e.v)
                            /\ \A i \in 1..Len(r) : Mod(r[i]) = Mod(e.v[i]) /\ (i > 1 => Abs(r[i] - r[i - 1]) <= 180)
                            /\ (Len(r) > 0 => r[1] = e.v[1]), "the continued angles are other angles or jump")
    [] e.op = "vec" -> LET u == e.u v == e.v IN
         Ok(/\ r.det = Det(u, v) /\ r.dot = Dot3(u, v)
            /\ r.add = Add(u, v) /\ r.sub = Sub(u, v) /\ r.mul = Mul(u, e.f) /\ r.div = u /\ r.muleq = Mul(u, e.f)
            /\ r.eq = (u = v) /\ r.ne = (u # v)
            /\ r.lt = (u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2]))
            /\ r.eqnear /\ r.nefar, "arithmetic or comparison of points is wrong")
    [] e.op = "dir" -> Ok(IsAngle(r, e.d[1], e.d[2], e.d[3]), "the angle of a vector is wrong")
    [] e.op = "between" -> LET a == e.d b == e.g IN
         Ok(IsAngle(r, Dot2(a, b), Det(a, b), a[3] * b[3]), "the angle from one vector to another is wrong")
    [] e.op = "corner" -> LET a == e.d b == e.g IN
         Ok(IsAngle(r, Dot2(a, b), Det(a, b), a[3] * b[3]), "the angle between two consecutive segments is wrong")
    [] e.op = "polar" -> Ok(r[1] = e.p[1] + e.f * e.d[1] /\ r[2] = e.p[2] + e.f * e.d[2], "the point at an angle and a distance is wrong")
    [] e.op = "turn" -> Ok(r = TurnAll(e.k, e.v, e.c, e.d), "turning about a point moved something elsewhere")
    [] e.op = "shift" -> Ok(r = ShiftAll(e.k, e.v, e.c, e.how), "shifting moved something elsewhere")
    [] e.op = "side" -> LET v == Sub(e.t, e.s) d == Det(v, Sub(e.p, e.s)) IN
         Ok(IsFrac(r, d, e.h, 10000), "the signed distance to a line is wrong")
    [] e.op = "cross" -> LET a == Sub(e.t, e.s) b == Sub(e.w, e.u) den == Det(a, b) n == Det(Sub(e.u, e.s), b) IN
         IF den = 0 THEN Ok(r[1] = 10000 * e.s[1] /\ r[2] = 10000 * e.s[2], "parallel lines: not the start of the first")
         ELSE Ok(/\ IsFrac(r[1], e.s[1] * den + a[1] * n, den, 10000)
                 /\ IsFrac(r[2], e.s[2] * den + a[2] * n, den, 10000), "the lines do not meet there")
    [] e.op = "foot" -> Ok(AtFoot(r, Foot(e.p, e.s, e.t)), "not the nearest point of the segment")
    [] e.op = "foot3" -> LET f == Foot3(e.p, e.s, e.t) IN
         Ok(AtFoot(r, f) /\ IsFrac(r[3], f.z, f.V, 1000), "not the nearest point of the segment in space")
    [] e.op = "nearest" -> Ok(NearestOf(r, e.p, e.v), "not the nearest point of the line or ring")
    [] e.op = "segs" -> Ok(r = Segs(e.v), "the segments are not those of the line or ring")
    [] e.op = "lines" -> Ok(r = Rings(e.k, e.v), "the lines are not the borders of the shape")
    [] e.op = "vertex" -> Ok(VertexOk(e.v, e), "the angle at a vertex is wrong")
    [] e.op = "ends" -> Ok(/\ IsAngle(r.s, e.d[1], e.d[2], e.d[3]) /\ IsAngle(r.e, e.g[1], e.g[2], e.g[3])
                           , "the angle at the start or the end of a line is wrong")
    [] OTHER -> PW("unknown event")
\* --- laws the oracles themselves have to satisfy (PlaneMC) ---
AngleLaws(a, b) ==
  /\ Diff(a, b) \in 0..180 /\ Diff(a, b) = Diff(b, a) /\ Diff(a + 360, b) = Diff(a, b)
  /\ (Diff(a, b) = 0 <=> Mod(a) = Mod(b))
  /\ LET m == {x \in 0..719 : Bisects(x, a, b)} IN
       IF Diff(a, b) = 180 THEN \E x \in m : m = {x, (x + 360) % 720} ELSE \E x \in m : m = {x}
  /\ LET r == {x \in (a - 180)..(a + 180) : Continues(x, a, b)} IN
       IF Diff(a, b) = 180 THEN r = {a - 180, a + 180} ELSE \E x \in r : r = {x}
\* no quarter point of the segment is nearer than the foot, and the foot is as far as stated
FootLaws(p, s, t) ==
  LET v == Sub(t, s) d == Dist2(p, s, t) f == Foot(p, s, t)
      Sq(x, y) == x * x + y * y IN
  /\ \A k \in 0..4 : Le(d, <<Sq(4 * (p[1] - s[1]) - k * v[1], 4 * (p[2] - s[2]) - k * v[2]), 16>>)
  /\ d[1] * f.V * f.V = Sq(p[1] * f.V - f.x, p[2] * f.V - f.y) * d[2]
TurnLaws(p, d) == LET c == <<1, -2, 0>> q == Add(c, Mul(p, d[3])) r == Turned(q, c, d) IN
  Turned(Add(c, Mul(Sub(r, c), d[3])), c, <<d[1], -d[2], d[3]>>) = Add(c, <<d[3] * d[3] * p[1], d[3] * d[3] * p[2], d[3] * r[3]>>)
=============================================================================
