------------------------------- MODULE PathSeq ------------------------------
(* Paths as sequences of driven sections (C13).  A state is                   *)
(* <<x, y, z, <<ux, uy, h>>, len, dir, type, vel>>: where the section starts, *)
(* the unit heading (ux, uy)/h, the length, forward 1 or backward -1, the     *)
(* kind of section (1 swath, 2 turn, 3 headland swath) and the speed.         *)
(* Coordinates and lengths are in tenths of a metre, speeds in quarter m/s.   *)
(* P holds two path slots.  Answers are in thousandths of the unit, angles in *)
(* thousandths of a degree.                                                   *)
EXTENDS Integers, Sequences, TLC, Json
K == 1000
Full == 360000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Near(x, y, t) == Abs(x - y) <= t
AngOf(u) == CASE u = <<1, 0, 1>> -> 0 [] u = <<0, 1, 1>> -> 90000 [] u = <<-1, 0, 1>> -> 180000 [] u = <<0, -1, 1>> -> 270000
  [] u = <<4, 3, 5>> -> 36870 [] u = <<3, 4, 5>> -> 53130 [] u = <<-3, 4, 5>> -> 126870 [] u = <<-4, 3, 5>> -> 143130
  [] u = <<-4, -3, 5>> -> 216870 [] u = <<-3, -4, 5>> -> 233130 [] u = <<3, -4, 5>> -> 306870 [] u = <<4, -3, 5>> -> 323130
Heads == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<4, 3, 5>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<-4, 3, 5>>,
          <<-4, -3, 5>>, <<-3, -4, 5>>, <<3, -4, 5>>, <<4, -3, 5>>}
AngEq(a, b) == a >= 0 /\ a <= Full /\ LET d == (a - b) % Full IN d <= 4 \/ d >= Full - 4
P0 == << <<>>, <<>> >>
Len5(s) == s[5]
\* end of a section, times the denominator of its heading
EndX(s) == s[1] * s[4][3] + s[6] * s[5] * s[4][1]
EndY(s) == s[2] * s[4][3] + s[6] * s[5] * s[4][2]
RECURSIVE Cum(_, _)
Cum(p, n) == IF n = 0 THEN 0 ELSE Cum(p, n - 1) + p[n][5]
Total(p) == Cum(p, Len(p))
\* quarter turns about c
RECURSIVE RotV(_, _)
RotV(v, k) == IF k = 0 THEN v ELSE RotV(<<-v[2], v[1]>>, k - 1)
RotState(s, c, k) == LET w == RotV(<<s[1] - c[1], s[2] - c[2]>>, k) u == RotV(<<s[4][1], s[4][2]>>, k) IN
  [s EXCEPT ![1] = c[1] + w[1], ![2] = c[2] + w[2], ![4] = <<u[1], u[2], s[4][3]>>]
MapP(p, F(_)) == [i \in 1..Len(p) |-> F(p[i])]
SetIf(p, i, f, v) == [n \in 1..Len(p) |-> IF i = 0 \/ i = n THEN [p[n] EXCEPT ![f] = v] ELSE p[n]]
\* sections of a polyline given by its start and steps <<heading, length>>
RECURSIVE Drive(_, _, _, _)
Drive(at, steps, n, v) == IF n > Len(steps) THEN <<>> ELSE
  LET u == steps[n][1] l == steps[n][2] IN
  << <<at[1], at[2], 0, u, l, 1, 1, v>> >> \o Drive(<<at[1] + (u[1] * l) \div u[3], at[2] + (u[2] * l) \div u[3]>>, steps, n + 1, v)
\* sections that merge into an earlier one: close to it and of the same kind
Merges(s, t, d) == s[7] = t[7] /\ s[6] = t[6] /\ s[8] = t[8] /\ (s[1] - t[1]) * (s[1] - t[1]) + (s[2] - t[2]) * (s[2] - t[2]) < d * d
RECURSIVE ReduceFrom(_, _, _)
ReduceFrom(p, i, d) ==
  IF i > Len(p) THEN <<>>
  ELSE LET js == {j \in (i + 1)..Len(p) : ~Merges(p[i], p[j], d)}
           j == IF js = {} THEN Len(p) + 1 ELSE CHOOSE x \in js : \A y \in js : x <= y IN
       << [p[i] EXCEPT ![5] = Cum(p, j - 1) - Cum(p, i - 1)] >> \o ReduceFrom(p, j, d)
PDo(P, e) ==
  CASE e.op \in {"add", "adds"} -> [P EXCEPT ![e.a] = Append(@, e.s)]
    [] e.op = "set" -> [P EXCEPT ![e.a][e.i] = e.s]
    [] e.op \in {"setall", "edit"} -> [P EXCEPT ![e.a] = e.v]
    [] e.op = "swath" -> [P EXCEPT ![e.a] = @ \o Drive(e.p, e.steps, 1, e.v)]
    [] e.op = "join" -> [P EXCEPT ![e.a] = @ \o P[e.b]]
    [] e.op \in {"copy", "file"} -> [P EXCEPT ![e.a] = P[e.b]]
    [] e.op = "move" -> [P EXCEPT ![e.a] = LET F(s) == [s EXCEPT ![1] = @ + e.p[1], ![2] = @ + e.p[2], ![3] = @ + e.p[3]] IN MapP(@, F)]
    [] e.op = "rotate" -> [P EXCEPT ![e.a] = LET F(s) == RotState(s, e.p, e.k % 4) IN MapP(@, F)]
    [] e.op = "mirx" -> [P EXCEPT ![e.a] = LET F(s) == [s EXCEPT ![1] = -@, ![4] = <<-@[1], @[2], @[3]>>] IN MapP(@, F)]
    [] e.op = "miry" -> [P EXCEPT ![e.a] = LET F(s) == [s EXCEPT ![2] = -@, ![4] = <<@[1], -@[2], @[3]>>] IN MapP(@, F)]
    [] e.op = "dir" -> [P EXCEPT ![e.a] = SetIf(@, e.i, 6, e.v)]
    [] e.op = "type" -> [P EXCEPT ![e.a] = SetIf(@, e.i, 7, e.v)]
    [] e.op = "reduce" -> [P EXCEPT ![e.a] = ReduceFrom(@, 1, e.d)]
    [] OTHER -> P
\* --- answers ---
StateEq(r, s) ==
  /\ Near(r[1], K * s[1], 2) /\ Near(r[2], K * s[2], 2) /\ Near(r[3], K * s[3], 2)
  /\ AngEq(r[4], AngOf(s[4])) /\ Near(r[5], K * s[5], 2) /\ r[6] = s[6] /\ r[7] = s[7] /\ r[8] = s[8]
PathEq(r, p) == Len(r) = Len(p) /\ \A i \in 1..Len(p) : StateEq(r[i], p[i])
\* r is the position after t (scaled by K) along section i of p
OnSectionTol(r, p, i, t, tol) ==
  LET s == p[i] h == s[4][3] d == t - K * Cum(p, i - 1) IN
  /\ Near(h * r[1], h * K * s[1] + s[6] * d * s[4][1], tol * h) /\ Near(h * r[2], h * K * s[2] + s[6] * d * s[4][2], tol * h)
  /\ AngEq(r[4], AngOf(s[4])) /\ r[6] = s[6] /\ r[7] = s[7] /\ r[8] = s[8]
OnSection(r, p, i, t) == OnSectionTol(r, p, i, t, 3)
\* sections that contain travelled distance t (scaled), borders belong to both
Holding(p, t, tol) == {i \in 1..Len(p) : K * Cum(p, i - 1) - tol <= t /\ t <= K * Cum(p, i) + tol}
AtOk(p, t, r) == LET c == Max2(0, Min2(t, K * Total(p))) IN p = <<>> \/ \E i \in Holding(p, c, 0) : OnSection(r, p, i, c) /\ Near(r[5], K * p[i][5], 2)
Ext(p, i, big) == IF big THEN CHOOSE x \in {p[n][i] : n \in 1..Len(p)} : \A n \in 1..Len(p) : p[n][i] <= x
                         ELSE CHOOSE x \in {p[n][i] : n \in 1..Len(p)} : \A n \in 1..Len(p) : p[n][i] >= x
RECURSIVE Time4(_, _)
\* durations in quarter tenths; speeds divide 16
Time4(p, n) == IF n = 0 THEN 0 ELSE Time4(p, n - 1) + p[n][5] * (16 \div p[n][8])
EndEq(r, s) == Near(s[4][3] * r[1], K * EndX(s), 3 * s[4][3]) /\ Near(s[4][3] * r[2], K * EndY(s), 3 * s[4][3])
InfoOk(p, r) ==
  LET n == Len(p) IN
  /\ r.size = n /\ Near(r.length, K * Total(p), 3) /\ Near(r.cost, K * Total(p), 3)
  /\ Near(r.time, 250 * Time4(p, n), 20)
  /\ PathEq(r.states, p) /\ PathEq(r.index, p) /\ PathEq(r.iter, p)
  /\ (n > 0 => /\ StateEq(r.back, p[n])
               /\ Near(r.start[1], K * p[1][1], 2) /\ Near(r.start[2], K * p[1][2], 2)
               /\ EndEq(r.atend, p[n])
               /\ \A i \in 1..n : EndEq(r.ends[i], p[i])
               /\ r.dims = <<K * Ext(p, 1, FALSE), K * Ext(p, 1, TRUE), K * Ext(p, 2, FALSE), K * Ext(p, 2, TRUE)>>)
  /\ IF n = 0 THEN r.line = <<>>
     ELSE /\ Len(r.line) = n + 1 /\ EndEq(r.line[n + 1], p[n])
          /\ \A i \in 1..n : Near(r.line[i][1], K * p[i][1], 2) /\ Near(r.line[i][2], K * p[i][2], 2)
\* swath sections cut into equal steps of about the wanted size, the rest as it is
RECURSIVE CutOk(_, _, _, _, _)
CutOk(p, i, r, k, step) ==
  IF i > Len(p) THEN k = Len(r) + 1
  ELSE LET s == p[i] n == IF s[7] = 1 THEN Max2(1, (2 * s[5] + step) \div (2 * step)) ELSE 1 h == s[4][3] IN
       /\ k + n - 1 <= Len(r)
       /\ \A j \in 0..(n - 1) : LET q == r[k + j] IN
            /\ Near(n * h * q[1], K * (n * h * s[1] + s[6] * j * s[5] * s[4][1]), 2 * n * h)
            /\ Near(n * h * q[2], K * (n * h * s[2] + s[6] * j * s[5] * s[4][2]), 2 * n * h)
            /\ AngEq(q[4], AngOf(s[4])) /\ Near(n * q[5], K * s[5], n) /\ q[6] = s[6] /\ q[7] = s[7] /\ q[8] = s[8]
       /\ CutOk(p, i + 1, r, k + n, step)
\* one straight continuous drive
Straight(p) == \A i \in 1..Len(p) : /\ p[i][4] = p[1][4] /\ p[i][6] = p[1][6] /\ p[i][3] = 0
                                     /\ (i > 1 => EndX(p[i - 1]) = p[i][1] * p[i][4][3] /\ EndY(p[i - 1]) = p[i][2] * p[i][4][3])
Moving(p) == {i \in 1..Len(p) : p[i][5] > 0}
\* q is where a drive along straight p is after t (scaled), with what holds there
SameAttrs(q, s) == q[6] = s[6] /\ q[7] = s[7] /\ q[8] = s[8]
OnStraight(p, q, t, tol) == \E i \in Holding(p, t, tol) : OnSectionTol(q, p, i, t, tol)
RECURSIVE RCum(_, _)
RCum(r, n) == IF n = 0 THEN 0 ELSE RCum(r, n - 1) + r[n][5]
EndsTogether(p, r) == LET s == p[Len(p)] q == r[Len(r)] u == s[4] IN
  /\ Near(u[3] * q[1] + q[6] * q[5] * u[1], K * EndX(s), 8 * u[3]) /\ Near(u[3] * q[2] + q[6] * q[5] * u[2], K * EndY(s), 8 * u[3])
\* many equal steps
PopulateOk(p, n, r) ==
  IF Len(p) < 3 \/ n < 1 \/ Moving(p) = {} THEN PathEq(r, p)
  ELSE LET T == Total(p) IN
  /\ Len(r) = n
  /\ \A i \in 1..n : Near(n * r[i][5], K * T, n)
  /\ LET f == CHOOSE i \in Moving(p) : \A j \in Moving(p) : i <= j IN Near(r[1][1], K * p[f][1], 3) /\ Near(r[1][2], K * p[f][2], 3)
  \* what holds at each step is what holds on the section it is on
  /\ \A i \in 1..n : \E j \in Moving(p) : SameAttrs(r[i], p[j]) /\ n * Cum(p, j - 1) <= (i - 1) * T /\ (i - 1) * T <= n * Cum(p, j)
  \* a step that falls on the start of a section is at that start
  /\ \A i \in 1..n : \A j \in Moving(p) : n * Cum(p, j - 1) = (i - 1) * T =>
        Near(r[i][1], K * p[j][1], 4) /\ Near(r[i][2], K * p[j][2], 4)
  /\ (Straight(p) => /\ \A i \in 1..n : \E j \in Moving(p) :
                          LET s == p[j] h == s[4][3] d == (i - 1) * T - n * Cum(p, j - 1) IN
                          /\ d >= 0 /\ d <= n * s[5] /\ AngEq(r[i][4], AngOf(s[4]))
                          /\ Near(h * n * r[i][1], K * (h * n * s[1] + s[6] * d * s[4][1]), 4 * h * n)
                          /\ Near(h * n * r[i][2], K * (h * n * s[2] + s[6] * d * s[4][2]), 4 * h * n)
                     /\ EndsTogether(p, r))
\* steps of about the wanted size
DiscretizeOk(p, step, r) ==
  IF Len(p) < 3 \/ Moving(p) = {} \/ ~Straight(p) THEN p = <<>> \/ (Len(r) > 0 /\ Near(RCum(r, Len(r)), K * Total(p), 2 + Len(r)))
  ELSE /\ Len(r) >= 1 /\ Near(RCum(r, Len(r)), K * Total(p), 2 + Len(r))
       /\ \A i \in 1..Len(r) : OnStraight(p, r[i], RCum(r, i - 1), 4 + i)
       /\ \A i \in 1..Len(r) : 10 * r[i][5] <= 13 * K * step
       /\ \A i \in 1..(Len(r) - 1) : 10 * r[i][5] >= 7 * K * step \/ ~SameAttrs(r[i], r[i + 1]) \/ 10 * step > 3 * Total(p)
       /\ EndsTogether(p, r)
PWhy(P, e) ==
  IF e.x # "" THEN <<"C13", "unexpected exception " \o e.x>>
  ELSE CASE e.op = "info" -> IF InfoOk(P[e.a], e.r) THEN <<>> ELSE <<"C13", "length, duration, ends, extent or sections are not those of the path">>
         [] e.op = "at" -> IF \A i \in 1..Len(e.t) : AtOk(P[e.a], e.t[i], e.r[i]) THEN <<>> ELSE <<"C13", "the position after a distance is not on the path there">>
         \* written with some digits, read back with (about) as many; with 17 exactly
         [] e.op = "uneven" -> IF /\ e.r.attrs /\ Len(e.r.digits) > 0
                                  /\ \A i \in 1..Len(e.r.digits) : \A c \in 1..Len(e.r.digits[i]) : e.r.digits[i][c] >= (IF e.prec = 17 THEN 30 ELSE e.prec - 1)
                               THEN <<>> ELSE <<"C13", "a saved path is read back with other numbers">>
         [] e.op = "end" -> IF EndEq(e.r, e.s) THEN <<>> ELSE <<"C13", "a section ends somewhere else">>
         [] e.op = "cut" -> IF CutOk(P[e.a], 1, e.r.cut, 1, e.d) /\ PathEq(e.r.orig, P[e.a]) THEN <<>> ELSE <<"C13", "cutting the swaths changes the path">>
         [] e.op = "populate" -> IF PopulateOk(P[e.a], e.n, e.r) THEN <<>> ELSE <<"C13", "a populated path is not the same drive">>
         [] e.op = "discretize" -> IF DiscretizeOk(P[e.a], e.d, e.r) THEN <<>> ELSE <<"C13", "a discretised path is not the same drive">>
         [] OTHER -> LET Q == PDo(P, e) IN IF PathEq(e.r[1], Q[1]) /\ PathEq(e.r[2], Q[2]) THEN <<>> ELSE <<"C13", "the path is not what the operations make of it">>
=============================================================================
