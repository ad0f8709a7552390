------------------------------- MODULE RegionQ -------------------------------
(* Polygon queries (C20).  The state holds two lattice regions; every answer  *)
(* of Cell and Cells is decided from the exact integer geometry of Region.    *)
(* Points and lines of queries are in eighths of the lattice; observed points *)
(* come rounded to 1/80.                                                      *)
EXTENDS Region
QStart == << <<>>, <<>> >>
QDo(s, e) == IF e.op = "set" THEN [s EXCEPT ![e.a] = e.v] ELSE s
At80(p) == <<10 * p[1], 10 * p[2]>>
S80(cs) == Scaled(cs, U)
\* --- points ---
Strict(cs, es, p) == ~OnEdges(es, p) /\ InRegion(cs, p)
Nearest(es, p, r) == Near(es, r, 2) /\ FarFromAll(es, p, IRoot(Sq(p, r), 0, 46341) - 3)
PointWhy(cells, e) ==
  LET cs == S80(cells) es == Edges(cs) p == At80(e.p) r == e.r
      on == OnEdges(es, p) in == Strict(cs, es, p)
      Per(i) == LET ces == CellEdges(cs[i]) o == OnEdges(ces, p) n == ~o /\ InCell(cs[i], p) IN <<n, o, n \/ o>>
      here == {i \in 1..Len(cs) : Per(i)[3]}
  IN IF r["in"] # in \/ r.within # in THEN <<"C20", "whether a point is inside">>
     ELSE IF r.border # on \/ r.touches # on THEN <<"C20", "whether a point is on the border">>
     ELSE IF r.disjoint # ~(in \/ on) THEN <<"C20", "whether a point is apart">>
     ELSE IF r.per # [i \in 1..Len(cs) |-> Per(i)] THEN <<"C20", "whether a point is in a cell">>
     ELSE IF (here = {} /\ r.where # <<>>) \/ (here # {} /\ ~\E i \in here : r.where = cells[i])
          THEN <<"C20", "the cell where a point is">>
     ELSE IF ~Nearest(es, p, r.closest) \/ (\E i \in 1..Len(cs) : ~Nearest(CellEdges(cs[i]), p, r.closests[i]))
             \/ (\E i \in 1..Len(cs[1]) : ~Nearest(RingEdges(cs[1][i]), p, r.ringclosest[i]))
          THEN <<"C20", "the closest point on the border">>
     ELSE IF ((in \/ on) /\ r.dist # 0) \/ (~(in \/ on) /\ Abs(r.dist - IRoot(Sq(p, r.closest), 0, 46341)) > 3)
          THEN <<"C20", "the distance to a point">> ELSE <<>>
\* --- lines ---
\* position k/16 of the line, in 1/128
OnLine(l, k) == <<16 * l[1][1] + k * (l[2][1] - l[1][1]), 16 * l[1][2] + k * (l[2][2] - l[1][2])>>
\* position t/16000, in 1/80
LineAt(l, t) == <<10 * l[1][1] + ((10 * (l[2][1] - l[1][1])) * t) \div 16000, 10 * l[1][2] + ((10 * (l[2][2] - l[1][2])) * t) \div 16000>>
RECURSIVE SumSpan(_, _)
SumSpan(iv, i) == IF i > Len(iv) THEN 0 ELSE iv[i][2] - iv[i][1] + SumSpan(iv, i + 1)
Length8(l) == IF l[1][1] = l[2][1] THEN 125 * Abs(l[1][2] - l[2][2]) ELSE IF l[1][2] = l[2][2] THEN 125 * Abs(l[1][1] - l[2][1])
              ELSE LET n == Sq(l[1], l[2]) IN (125 * IRoot(100 * n, 0, 46341)) \div 10
IvOK(cells, l, iv, others) ==
  LET cs == Scaled(cells, 128) es == Edges(cs) e80 == Edges(S80(cells)) \cup others IN
  /\ \A k \in 1..15 : LET s == OnLine(l, k) IN
       IF OnEdges(es, s) THEN TRUE
       ELSE IF InRegion(cs, s) THEN \E i \in 1..Len(iv) : iv[i][1] - 1 <= 1000 * k /\ 1000 * k <= iv[i][2] + 1
       ELSE \A i \in 1..Len(iv) : ~(iv[i][1] + 1 < 1000 * k /\ 1000 * k < iv[i][2] - 1)
  /\ \A i \in 1..Len(iv) : \A j \in 1..2 :
       (iv[i][j] \in {0, 16000} \/ Near(e80, LineAt(l, iv[i][j]), 3))
\* the parts of one line: each point of them counted once
OneOK(cells, l, r) ==
  LET len == Length8(l) n == Len(r.on[1]) IN
  /\ Len(r.on) = 1 /\ \A i \in 1..n : r.on[1][i][1] \in -1..16001 /\ r.on[1][i][2] \in -1..16001
  /\ IvOK(cells, l, r.on[1], {}) /\ n = r.n
  /\ \A i, j \in 1..n : i # j => (r.on[1][i][2] <= r.on[1][j][1] + 1 \/ r.on[1][j][2] <= r.on[1][i][1] + 1)
  /\ Abs(r.len - (SumSpan(r.on[1], 1) * (len \div 8)) \div 2000) <= 20 + 4 * n
\* lines that cross are cut where they do
ManyOK(cells, ls, r) == Len(r.on) = Len(ls) /\ \A i \in 1..Len(ls) :
  IvOK(cells, ls[i], r.on[i], {<<At80(ls[j][1]), At80(ls[j][2])>> : j \in 1..Len(ls)} \ {<<At80(ls[i][1]), At80(ls[i][2])>>})
LineWhy(cells, e) ==
  LET r == e.r first == <<cells[1]>> IN
  IF ~OneOK(cells, e.ls[1], r.one) \/ ~OneOK(first, e.ls[1], r.cellone) THEN <<"C20", "the parts of a line inside">>
  ELSE IF ~ManyOK(cells, e.ls, r.multi) \/ ~ManyOK(first, e.ls, r.cell) THEN <<"C20", "the parts of several lines inside">>
  ELSE <<>>
\* --- rays ---
Along(d, p, h) == /\ Abs(d[1] * (h[2] - p[2]) - d[2] * (h[1] - p[1])) <= Abs(d[1]) + Abs(d[2])
                  /\ d[1] * (h[1] - p[1]) + d[2] * (h[2] - p[2]) > 0
Between(p, h, k) == <<p[1] + ((h[1] - p[1]) * k) \div 16, p[2] + ((h[2] - p[2]) * k) \div 16>>
Box(cs) == LET vs == Vertices(cs) IN <<MinOf({v[1] : v \in vs}), MaxOf({v[1] : v \in vs}), MinOf({v[2] : v \in vs}), MaxOf({v[2] : v \in vs})>>
Span(cs) == LET b == Box(cs) IN b[2] - b[1] + b[4] - b[3]
HitOK(c, es, p, d, r, inside) ==
  /\ Len(r) = 2 /\ r[1] = p /\ Along(d, p, r[2]) /\ Near(es, r[2], 3)
  /\ \A k \in 1..15 : LET m == Between(p, r[2], k) IN Near(es, m, 3) \/ InCell(c, m) = inside
\* c in 1/80
RayOK(c, p, d, r) ==
  LET es == CellEdges(c) on == OnEdges(es, p) in == ~on /\ InCell(c, p)
      Step(j) == <<p[1] + j * d[1], p[2] + j * d[2]>>
      seen == {j \in 1..10 : ~Near(es, Step(j), 2)}
      crowded == Near({e \in es : ~OnSeg(e[1], e[2], p)}, p, 10 * (Abs(d[1]) + Abs(d[2])))
  IN IF in THEN HitOK(c, es, p, d, r, TRUE)
     ELSE IF on THEN
       IF crowded \/ seen = {} THEN TRUE
       ELSE IF \A j \in seen : InCell(c, Step(j)) THEN HitOK(c, es, p, d, r, TRUE)
       ELSE IF \A j \in seen : ~InCell(c, Step(j)) THEN r = <<>>
       ELSE TRUE
     ELSE IF r = <<>> THEN
       LET f == Span(<<c>>) \div (Abs(d[1]) + Abs(d[2])) IN
       \A k \in 0..60 : LET m == <<p[1] + (d[1] * f * k) \div 60, p[2] + (d[2] * f * k) \div 60>> IN Near(es, m, 3) \/ ~InCell(c, m)
     ELSE HitOK(c, es, p, d, r, FALSE)
LongOK(cs, p8, d, l, both) ==
  LET span == 40 * Span(cs) p == <<5 * p8[1], 5 * p8[2]>> IN
  /\ Len(l) = 2 /\ Along(d, p, l[2]) /\ Abs(IRoot(Sq(p, l[2]), 0, 46341) - span) <= 2
  /\ IF both THEN Abs(l[1][1] + l[2][1] - 2 * p[1]) <= 2 /\ Abs(l[1][2] + l[2][2] - 2 * p[2]) <= 2 ELSE l[1] = p
RayWhy(cells, e) ==
  LET cs == S80(cells) p == At80(e.p) r == e.r first == <<cells[1]>>
      here == {i \in 1..Len(cs) : LET ces == CellEdges(cs[i]) IN OnEdges(ces, p) \/ InCell(cs[i], p)}
  IN IF ~RayOK(cs[1], p, e.d, r.cell) THEN <<"C20", "the first border hit in a cell">>
     ELSE IF (IF here = {} THEN r.cells # <<>> ELSE ~\E i \in here : RayOK(cs[i], p, e.d, r.cells))
          THEN <<"C20", "the first border hit in the region">>
     ELSE IF ~(/\ LongOK(cells, e.p, e.d, r.semi, FALSE) /\ LongOK(cells, e.p, e.d, r.straight, TRUE)
               /\ LongOK(first, e.p, e.d, r.csemi, FALSE) /\ LongOK(first, e.p, e.d, r.cstraight, TRUE))
          THEN <<"C20", "the line that surely crosses the region">> ELSE <<>>
\* --- measures ---
Turns(r) == LET n == Len(r) - 1 IN {Cross(r[i], r[(i % n) + 1], r[((i + 1) % n) + 1]) : i \in 1..n}
RingConvex(r) == (\A t \in Turns(r) : t >= 0) \/ (\A t \in Turns(r) : t <= 0)
Convex(c) == Len(c) = 1 /\ RingConvex(c[1])
IsHull(h, vs) ==
  /\ Len(h) = 1 /\ Len(h[1]) >= 4 /\ h[1][1] = h[1][Len(h[1])] /\ RingConvex(h[1])
  /\ \A i \in 1..Len(h[1]) : h[1][i] \in vs
  /\ \/ \A i \in 1..(Len(h[1]) - 1) : \A v \in vs : Cross(h[1][i], h[1][i + 1], v) >= 0
     \/ \A i \in 1..(Len(h[1]) - 1) : \A v \in vs : Cross(h[1][i], h[1][i + 1], v) <= 0
RingOK(r, o) == /\ o.closed /\ o.cw = (Shoe(r, 1) < 0) /\ Close(o.len, MilliLen(r), Len(r)) /\ o.area2 = 100 * RingArea2(r)
InfoWhy(cells, e) ==
  LET r == e.r n == Len(cells) b == Box(cells) IN
  IF Len(r.per) # n \/ (\E i \in 1..n : r.per[i].convex # Convex(cells[i])) \/ r.convex # (n = 1 /\ Convex(cells[1]))
  THEN <<"C20", "whether a cell is convex">>
  ELSE IF r.area2 # 100 * Area2(cells) \/ \E i \in 1..n : r.per[i].area2 # 100 * CellArea2(cells[i]) THEN <<"C20", "the area">>
  ELSE IF ~IsHull(r.hull, Vertices(cells)) \/ \E i \in 1..n : ~IsHull(r.per[i].hull, Vertices(<<cells[i]>>)) THEN <<"C20", "the convex hull">>
  ELSE IF \E i \in 1..n : Len(r.per[i].rings) # Len(cells[i]) \/ \E j \in 1..Len(cells[i]) : ~RingOK(cells[i][j], r.per[i].rings[j])
  THEN <<"C20", "a border's length, area or orientation">>
  ELSE IF r.box # b \/ r.size # <<b[2] - b[1], b[4] - b[3], Span(cells)>> THEN <<"C20", "the dimensions">> ELSE <<>>
\* --- unions, intersections and differences ---
Holds(v, p) == Cardinality({i \in 1..Len(v) : InCell(v[i], p)})
BoolWhy(s, e) ==
  LET a == S80(s[1]) b == S80(s[2]) a1 == <<a[1]>> b1 == <<b[1]>> r == e.r
      ea == Edges(a) eb == Edges(b)
      ps == {q \in {At80(e.ps[i]) : i \in 1..Len(e.ps)} : ~Near(ea, q, 2) /\ ~Near(eb, q, 2)}
      Is(x, q, want) == Holds(x.v, q) = (IF want THEN 1 ELSE 0)
      A == 100 * Area2(s[1]) B == 100 * Area2(s[2]) B1 == 100 * Area2(<<s[2][1]>>)
      Same(x, y) == Abs(x - y) <= 3
  IN IF r.same # s THEN <<"C20", "a query changed the region">>
     ELSE IF \E q \in ps : LET ia == InRegion(a, q) ib == InRegion(b, q) IN
               ~(Is(r["or"], q, ia \/ ib) /\ Is(r.cascade, q, ia \/ ib)) THEN <<"C20", "the union">>
     ELSE IF \E q \in ps : LET ia == InRegion(a, q) ib == InRegion(b, q) IN
               ~(Is(r["and"], q, ia /\ ib) /\ Is(r.inside, q, ia /\ ib)) THEN <<"C20", "the intersection">>
     ELSE IF \E q \in ps : LET ia == InRegion(a, q) ib == InRegion(b, q) IN ~Is(r.minus, q, ia /\ ~ib) THEN <<"C20", "the difference">>
     ELSE IF \E q \in ps : LET ia == InRegion(a, q) ib == InRegion(b1, q) IN
               ~(/\ Is(r.or1, q, ia \/ ib) /\ Is(r.and1, q, ia /\ ib) /\ Is(r.minus1, q, ia /\ ~ib)
                 /\ Is(r.and11, q, InRegion(a1, q) /\ ib)) THEN <<"C20", "an operation with a single cell">>
     ELSE IF ~(/\ Same(r["or"].area2 + r["and"].area2, A + B) /\ Same(r.minus.area2 + r["and"].area2, A)
               /\ Same(r.cascade.area2, r["or"].area2) /\ Same(r.inside.area2, r["and"].area2)
               /\ Same(r.or1.area2 + r.and1.area2, A + B1) /\ Same(r.minus1.area2 + r.and1.area2, A))
          THEN <<"C20", "the area after an operation">> ELSE <<>>
\* --- splitting along lines ---
Segs(l) == {<<At80(l[i]), At80(l[i + 1])>> : i \in 1..(Len(l) - 1)}
Through(cs, l) == LET b == Box(cs) IN Len(l) = 2 /\
  \/ (Min2(l[1][1], l[2][1]) < 8 * b[1] /\ Max2(l[1][1], l[2][1]) > 8 * b[2])
  \/ (Min2(l[1][2], l[2][2]) < 8 * b[3] /\ Max2(l[1][2], l[2][2]) > 8 * b[4])
PiecesOK(cells, v, ls, pts) ==
  LET cs == S80(cells) es == Edges(cs) \cup UNION {Segs(ls[i]) : i \in 1..Len(ls)}
      ps == {q \in pts : ~Near(es, q, 2)}
      cut == {i \in 1..Len(ls) : Through(cells, ls[i])}
  IN /\ \A q \in ps : Holds(v, q) = IF InRegion(cs, q) THEN 1 ELSE 0
     /\ \A j \in 1..Len(v) : \A i \in cut : LET k == {q \in ps : InCell(v[j], q)} l == <<At80(ls[i][1]), At80(ls[i][2])>> IN
          (\A q \in k : Cross(l[1], l[2], q) > 0) \/ (\A q \in k : Cross(l[1], l[2], q) < 0)
SplitWhy(cells, e) ==
  LET r == e.r pts == {At80(e.ps[i]) : i \in 1..Len(e.ps)} A == 100 * Area2(cells) IN
  IF ~PiecesOK(cells, r.multi, e.ls, pts) \/ ~PiecesOK(cells, r.one, <<e.ls[1]>>, pts) THEN <<"C20", "the pieces after splitting along lines">>
  ELSE IF Abs(r.area2 - A) > 2 \/ Abs(r.area1 - A) > 2 THEN <<"C20", "the area after splitting along lines">> ELSE <<>>
QWhy(s, e) ==
  IF e.x # "" THEN <<"C20", "a query failed">>
  ELSE CASE e.op = "place" -> <<>>
    [] e.op = "set" -> IF e.r = e.v THEN <<>> ELSE <<"C20", "a region is not what was built">>
    [] e.op = "point" -> PointWhy(s[e.a], e)
    [] e.op = "line" -> LineWhy(s[e.a], e)
    [] e.op = "linesof" -> LineWhy(e.v, e)
    [] e.op = "ray" -> RayWhy(s[e.a], e)
    [] e.op = "info" -> InfoWhy(s[e.a], e)
    [] e.op = "bool" -> BoolWhy(s, e)
    [] e.op = "split" -> SplitWhy(s[e.a], e)
=============================================================================
