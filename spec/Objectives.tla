----------------------------- MODULE Objectives -----------------------------
(* What the objective values measure (C21).  Fields are rectilinear lattice   *)
(* regions and swaths axis-aligned rectangles, so that areas are numbers of   *)
(* lattice squares; route costs are sums over consecutive stops.              *)
EXTENDS Region
\* --- areas: squares <<x, y>> of the grid, by their lower left corners ---
Grid == {<<x, y>> : x \in 0..29, y \in 0..29}
TwiceEdges(cs) == {<< <<2 * e[1][1], 2 * e[1][2]>>, <<2 * e[2][1], 2 * e[2][2]>> >> : e \in Edges(cs)}
Squares(cs) == LET es == TwiceEdges(cs) IN {g \in Grid : InEdges(es, <<2 * g[1] + 1, 2 * g[2] + 1>>)}
\* s: [p |-> end points, h |-> half the width]; the strip driven over
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Strip(s) ==
  LET a == s.p[1] b == s.p[2] flat == a[2] = b[2]
      dx == IF flat THEN 0 ELSE s.h dy == IF flat THEN s.h ELSE 0
  IN [x0 |-> Lo(a[1], b[1]) - dx, x1 |-> Hi(a[1], b[1]) + dx, y0 |-> Lo(a[2], b[2]) - dy, y1 |-> Hi(a[2], b[2]) + dy]
Under(F, s) == LET r == Strip(s) IN {g \in F : g[1] >= r.x0 /\ g[1] < r.x1 /\ g[2] >= r.y0 /\ g[2] < r.y1}
Covered(F, ss) == UNION {Under(F, ss[i]) : i \in 1..Len(ss)}
RECURSIVE Flatten(_)
Flatten(c) == IF c = <<>> THEN <<>> ELSE c[1] \o Flatten(Tail(c))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
\* squares counted once for every pair of swaths that share them
Doubly(F, ss) == LET u == [i \in 1..Len(ss) |-> Under(F, ss[i])] IN
  Sum([i \in 1..Len(ss) |-> Sum([j \in 1..(i - 1) |-> Cardinality(u[i] \cap u[j])])])
\* observed fraction in millionths against n out of m
Frac(r, n, m) == LET want == (1000000 * n) \div m IN r >= want - 1 /\ r <= want + 2
\* --- lengths ---
Lengths(ss) == Sum([i \in 1..Len(ss) |-> MilliLen(ss[i].p)])
Count(gs) == Sum([i \in 1..Len(gs) |-> Len(gs[i])])
\* how many tracks cross the borders: sum over the edges of their extent across d
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[1] + SumSet(S \ {x})
Extent(d, c) == SumSet({<<Abs(d[1] * (e[2][2] - e[1][2]) - d[2] * (e[2][1] - e[1][1])), e>> : e \in CellEdges(c)})
\* --- routes ---
Quarter(a, b) == IF b[1] > a[1] THEN 0 ELSE IF b[2] > a[2] THEN 1 ELSE IF b[1] < a[1] THEN 2 ELSE 3
OutQ(s) == Quarter(s[Len(s) - 1], s[Len(s)])
InQ(s) == Quarter(s[1], s[2])
\* kind "dist": the distance; kind "turn": leaving in quarter a and arriving in
\* quarter b costs 100 a + 1000 b more
Go(kind, p, a, q, b) == Milli(p, q) + (IF kind = "turn" THEN 100000 * a + 1000000 * b ELSE 0)
\* kind "turner": going from a heading to a heading is a turn, whose length is
\* made to depend on everything the turn is asked with
U4(q) == CASE q = 0 -> <<1, 0>> [] q = 1 -> <<0, 1>> [] q = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Along(u, p, q) == u[1] * (q[1] - p[1]) + u[2] * (q[2] - p[2])
Turn(kind, p, a, q, b) == IF kind = "turner" THEN Milli(p, q) + 1000 * (4025 + Along(U4(a), p, q) + 3 * Along(U4(b), p, q))
                          ELSE Go(kind, p, a, q, b)
LastOf(q) == q[Len(q)]
PtsCost(ps) == MilliLen(ps)
SwToSw(kind, s, t) == Turn(kind, LastOf(s), OutQ(s), t[1], InQ(t))
SwToPts(kind, s, ps) == Go(kind, LastOf(s), OutQ(s), ps[1], 0)
PtsToSw(kind, ps, s) == Go(kind, LastOf(ps), 0, s[1], InQ(s))
RECURSIVE GroupCost(_, _)
GroupCost(kind, g) == IF g = <<>> THEN 0 ELSE PtsCost(g[1]) + (IF Len(g) = 1 THEN 0 ELSE SwToSw(kind, g[1], g[2]) + GroupCost(kind, Tail(g)))
\* everything on the way: connections and swath groups, a connection first
RECURSIVE Stops(_, _)
Stops(cn, sw) == IF cn = <<>> /\ sw = <<>> THEN <<>> ELSE
  (IF cn = <<>> \/ cn[1] = <<>> THEN <<>> ELSE <<[k |-> 0, s |-> cn[1]]>>)
  \o (IF sw = <<>> THEN <<>> ELSE [i \in 1..Len(sw[1]) |-> [k |-> 1, s |-> sw[1][i]]])
  \o Stops(IF cn = <<>> THEN <<>> ELSE Tail(cn), IF sw = <<>> THEN <<>> ELSE Tail(sw))
Leg(kind, a, b) == IF a.k = 1 THEN (IF b.k = 1 THEN SwToSw(kind, a.s, b.s) ELSE SwToPts(kind, a.s, b.s))
                   ELSE IF b.k = 1 THEN PtsToSw(kind, a.s, b.s) ELSE Go(kind, LastOf(a.s), 0, b.s[1], 0)
RECURSIVE StopsCost(_, _)
StopsCost(kind, q) == IF q = <<>> THEN 0 ELSE PtsCost(q[1].s) + (IF Len(q) = 1 THEN 0 ELSE Leg(kind, q[1], q[2]) + StopsCost(kind, Tail(q)))
RouteCost(kind, e) == StopsCost(kind, Stops(e.cn, e.sw))
\* observed thousandths r against m, the sum of up to n rounded-down distances
Like(r, m, n) == r >= m - 1 /\ r <= m + n + 1
\* an objective of 100 for each ring of a cell and the width of a swath: the
\* combined cost charges the cells once for every swath
Adds(e, all) ==
  LET a == e.r.add n == Len(all)
      cell == 100 * Len(e.v[1]) cells == 100 * Sum([i \in 1..Len(e.v) |-> Len(e.v[i])])
      wide == Sum([i \in 1..n |-> 2 * all[i].h])
  IN /\ a = <<cell, cells, wide, wide, n * cell + wide, n * cells + wide, n * cell + wide, n * cells + wide>>
     /\ \A i \in 1..n : e.r.each[i] = <<2 * all[i].h, cell + 2 * all[i].h, cells + 2 * all[i].h>>
OWhy(s, e) ==
  IF e.x # "" THEN <<"C21", "an objective failed">>
  ELSE LET r == e.r IN
  CASE e.op = "sg" ->
         LET F == Squares(e.v) m == Cardinality(F) all == Flatten(e.g) n == Len(all) IN
         IF r.n # <<n, n, Count(e.g)>> THEN <<"C21", "number of swaths">>
         ELSE IF ~(\A i \in 1..3 : Like(r.len[i], Lengths(all), n)) THEN <<"C21", "length of the swaths">>
         ELSE IF ~(\A i \in 1..Len(r.cov) : Frac(r.cov[i], Cardinality(Covered(F, all)), m)) THEN <<"C21", "field coverage">>
         ELSE IF ~Frac(r.covby, Sum([i \in 1..Len(e.g) |-> Cardinality(Covered(F, e.g[i]))]), m) THEN <<"C21", "field coverage by cells">>
         ELSE IF ~(\A i \in 1..Len(r.over) : Frac(r.over[i], Doubly(F, all), m)) THEN <<"C21", "overlap">>
         ELSE IF ~Frac(r.overby, Sum([i \in 1..Len(e.g) |-> Doubly(F, e.g[i])]), m) THEN <<"C21", "overlap by cells">>
         ELSE IF ~Adds(e, all) THEN <<"C21", "sum over cells and swaths">>
         ELSE IF r.sign # <<r.n[1], r.len[1], -r.cov[1], r.over[1]>> THEN <<"C21", "cost to be minimised">>
         ELSE <<>>
    [] e.op = "rem" ->
         LET F == Squares(e.v) IN
         IF \A i \in 1..Len(r.rem) : Frac(r.rem[i], Cardinality(F \cap Squares(e.u)), Cardinality(F)) THEN
           (IF r.sign = -r.rem[1] THEN <<>> ELSE <<"C21", "cost to be minimised">>)
         ELSE <<"C21", "remaining area">>
    [] e.op = "mod" ->
         LET want == (4000 * Extent(e.d, e.v[1])) \div (IRoot(Sq(e.d, <<0, 0>>), 0, 46341) * e.w) IN
         IF r.mod >= want - 1 /\ r.mod <= want + 2 /\ r.none = 0 /\ r.fast THEN <<>> ELSE <<"C21", "modified number of swaths">>
    [] e.op = "rp" ->
         LET k == e.kind a == e.a b == e.b ps == e.ps IN
         IF \E i \in 1..Len(r.pts) : ~Like(r.pts[i], PtsCost(ps), Len(ps)) THEN <<"C21", "cost of points">>
         ELSE IF ~Like(r.s, PtsCost(a), Len(a)) THEN <<"C21", "cost of a swath">>
         ELSE IF ~Like(r.ss, SwToSw(k, a, b), 1) THEN <<"C21", "cost from swath to swath">>
         ELSE IF ~(Like(r.sp, Go(k, LastOf(a), OutQ(a), e.p, 0), 1) /\ Like(r.spa, Turn(k, LastOf(a), OutQ(a), e.p, e.q), 1)) THEN <<"C21", "cost from swath to point">>
         ELSE IF ~(Like(r.ps, Go(k, e.p, 0, a[1], InQ(a)), 1) /\ Like(r.pas, Turn(k, e.p, e.q, a[1], InQ(a)), 1)) THEN <<"C21", "cost from point to swath">>
         ELSE IF ~(\A i \in 1..2 : Like(r.sm[i], IF ps = <<>> THEN 0 ELSE SwToPts(k, IF i = 1 THEN a ELSE b, ps), 1)) THEN <<"C21", "cost from swath to points">>
         ELSE IF ~(\A i \in 1..2 : Like(r.ms[i], IF ps = <<>> THEN 0 ELSE PtsToSw(k, ps, a), 1)) THEN <<"C21", "cost from points to swath">>
         ELSE IF ~Like(r.g, GroupCost(k, <<a, b>>), Len(a) + Len(b) + 1) THEN <<"C21", "cost of swaths">>
         ELSE <<>>
    [] e.op = "route" ->
         IF Like(r, RouteCost(e.kind, e), 60) THEN <<>> ELSE <<"C21", "cost of a route">>
=============================================================================
