----------------------------- MODULE RandomGen -----------------------------
(* Random generators: a generator is its seed and what was asked of it so    *)
(* far; memo remembers what was answered to every such history, so that the  *)
(* same history must always get the same answer, whoever asks.               *)
EXTENDS Integers, Sequences, TLC
G0 == [g |-> [k \in 0..2 |-> <<<<0>>>>], memo |-> <<>>]
\* the request, without the generator's name
Asked(e) ==
  CASE e.op \in {"double", "angle"} -> <<e.op>>
    [] e.op \in {"linear", "exp"} -> <<e.op, e.lo, e.hi>>
    [] e.op = "expdist" -> <<e.op, e.lam>>
    [] e.op = "cellw" -> <<e.op, e.area, e.n, e.lo, e.hi>>
    [] e.op \in {"nonconvex", "nonconvexF"} -> <<e.op, e.area>>
    [] OTHER -> <<e.op, e.area, e.n>>
Requests == {"double", "angle", "linear", "exp", "expdist", "cell", "cellw", "convex", "nonconvex",
             "field", "convexF", "nonconvexF"}
Wrong(e) == \/ e.op \in {"cell", "cellw", "field", "convex", "convexF"} /\ (e.n < 3 \/ e.area <= 0)
            \/ e.op \in {"nonconvex", "nonconvexF"} /\ e.area <= 0
Hist(s, e) == Append(s.g[e.a], Asked(e))
Answer(e) == IF "ref" \in DOMAIN e.r THEN <<e.r.f, e.r.ref>> ELSE <<e.r.f>>
NDo(s, e) ==
  CASE e.op = "seed" -> [s EXCEPT !.g[e.a] = <<<<e.s>>>>]
    [] e.op = "copy" -> [s EXCEPT !.g[e.a] = s.g[e.b]]
    [] Wrong(e) -> s
    [] e.op \in Requests -> [s EXCEPT !.g[e.a] = Hist(s, e)]
    [] OTHER -> s
NPost(s, e) ==
  LET t == NDo(s, e) IN
  IF e.op \in Requests /\ ~Wrong(e) THEN [t EXCEPT !.memo = (Hist(s, e) :> Answer(e)) @@ @] ELSE t
\* polygons: 2000 units for the side of a square of the area asked for
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - b[2]) - (b[2] - a[2]) * (c[1] - b[1])
Ab(x) == IF x < 0 THEN -x ELSE x
Slack(a, b, c) == Ab(b[1] - a[1]) + Ab(b[2] - a[2]) + Ab(c[1] - b[1]) + Ab(c[2] - b[2]) + 2
Turn(p, i) == LET n == Len(p) - 1 IN <<p[i], p[(i % n) + 1], p[((i + 1) % n) + 1]>>
ConvexPts(p) ==
  \/ \A i \in 1..(Len(p) - 1) : LET t == Turn(p, i) IN Cross(t[1], t[2], t[3]) >= -Slack(t[1], t[2], t[3])
  \/ \A i \in 1..(Len(p) - 1) : LET t == Turn(p, i) IN Cross(t[1], t[2], t[3]) <= Slack(t[1], t[2], t[3])
SurelyConvex(p) ==
  \/ \A i \in 1..(Len(p) - 1) : LET t == Turn(p, i) IN Cross(t[1], t[2], t[3]) > Slack(t[1], t[2], t[3])
  \/ \A i \in 1..(Len(p) - 1) : LET t == Turn(p, i) IN Cross(t[1], t[2], t[3]) < -Slack(t[1], t[2], t[3])
RECURSIVE Shoe(_, _)
Shoe(p, i) == IF i >= Len(p) THEN 0
              ELSE p[i][1] * p[i + 1][2] - p[i + 1][1] * p[i][2] + Shoe(p, i + 1)
\* two segments cross in their inner parts
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Side(a, b, c) == LET v == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
                 IN IF Ab(v) <= 2 * (Ab(b[1] - a[1]) + Ab(b[2] - a[2])) + 2 THEN 0 ELSE Sgn(v)
Crosses(a, b, c, d) == Side(a, b, c) * Side(a, b, d) < 0 /\ Side(c, d, a) * Side(c, d, b) < 0
Simple(p) == \A i, j \in 1..(Len(p) - 1) : i < j => ~Crosses(p[i], p[i + 1], p[j], p[j + 1])
Sides(e) == IF e.op \in {"nonconvex", "nonconvexF"} THEN 9 ELSE e.n
CellRight(e) ==
  LET p == e.r.pts IN
  /\ e.r.rings = 1 /\ Len(p) = Sides(e) + 1 /\ p[1] = p[Len(p)]
  /\ e.r.area >= 999990 /\ e.r.area <= 1000010
  /\ Ab(Ab(Shoe(p, 1)) - 8000000) <= 80000
  /\ Simple(p)
  /\ e.op \in {"convex", "convexF"} => ConvexPts(p)
  /\ e.op \in {"nonconvex", "nonconvexF"} => ~SurelyConvex(p)
InRange(e) ==
  CASE e.op = "double" -> e.r.v >= 0 /\ e.r.v <= 1000
    [] e.op = "angle" -> e.r.v >= 0 /\ e.r.v <= 6283
    [] e.op \in {"linear", "exp"} -> e.r.v >= 1000 * e.lo /\ e.r.v <= 1000 * e.hi
    [] e.op = "expdist" -> e.r.v >= 0
\* the same history in a new process, where nothing else was ever asked
Elsewhere(s, e) == LET g == s.g[e.a] IN
  /\ Len(e.r) = Len(g) - 1
  /\ \A k \in 2..Len(g) : LET h == SubSeq(g, 1, k) IN h \in DOMAIN s.memo => s.memo[h] = e.r[k - 1]
NVerdict(s, e) ==
  IF e.op = "fresh" THEN IF e.x = "" /\ Elsewhere(s, e) THEN <<>> ELSE <<"C22", "another process answers the same seed and requests differently">>
  ELSE IF Wrong(e) THEN IF e.x # "" THEN <<>> ELSE <<"C22", "an impossible cell was generated">>
  ELSE IF e.x # "" THEN <<"C22", "unexpected exception " \o e.x>>
  ELSE IF e.op \notin Requests THEN <<>>
  ELSE IF Hist(s, e) \in DOMAIN s.memo /\ s.memo[Hist(s, e)] # Answer(e)
  THEN <<"C22", "the same seed and requests gave another answer">>
  ELSE IF e.op \in {"double", "angle", "linear", "exp", "expdist"}
  THEN IF InRange(e) THEN <<>> ELSE <<"C22", "number out of the range asked for">>
  ELSE IF CellRight(e) THEN <<>> ELSE <<"C22", "cell is not as asked for">>
=============================================================================
