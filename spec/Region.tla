------------------------------- MODULE Region -------------------------------
(* Plane regions bounded by integer polygons, decided exactly.               *)
(* ring: closed sequence of points <<x, y>>; cell: rings, the first one the   *)
(* outer border, the others holes; region: sequence of disjoint cells.        *)
(* Lattice regions are compared with observed ones in units of 1/80.          *)
EXTENDS Integers, Sequences, FiniteSets, Dist
U == 80
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Dot(a, b, p) == (b[1] - a[1]) * (p[1] - a[1]) + (b[2] - a[2]) * (p[2] - a[2])
InBox(a, b, p, t) ==
  /\ p[1] >= Min2(a[1], b[1]) - t /\ p[1] <= Max2(a[1], b[1]) + t
  /\ p[2] >= Min2(a[2], b[2]) - t /\ p[2] <= Max2(a[2], b[2]) + t
OnSeg(a, b, p) == InBox(a, b, p, 0) /\ Cross(a, b, p) = 0
\* within t of the segment, or not much further (never misses a point within t)
NearSeg(a, b, p, t) == InBox(a, b, p, t) /\ Abs(Cross(a, b, p)) <= t * (Abs(b[1] - a[1]) + Abs(b[2] - a[2]))
RingEdges(r) == {<<r[i], r[i + 1]>> : i \in 1..(Len(r) - 1)}
CellEdges(c) == UNION {RingEdges(c[i]) : i \in 1..Len(c)}
Edges(cs) == UNION {CellEdges(cs[i]) : i \in 1..Len(cs)}
OnEdges(es, p) == \E e \in es : OnSeg(e[1], e[2], p)
Near(es, p, t) == \E e \in es : NearSeg(e[1], e[2], p, t)
\* does the ray from p to the right cross the edge?
Hits(a, b, p) ==
  /\ (a[2] > p[2]) # (b[2] > p[2])
  /\ p[1] < Max2(a[1], b[1])
  /\ \/ p[1] < Min2(a[1], b[1])
     \/ IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0
InEdges(es, p) == Cardinality({e \in es : Hits(e[1], e[2], p)}) % 2 = 1
\* for points that are not on the border
InCell(c, p) == InEdges(CellEdges(c), p)
InRegion(cs, p) == \E i \in 1..Len(cs) : InCell(cs[i], p)
Closure(cs, p) == OnEdges(Edges(cs), p) \/ InRegion(cs, p)
RECURSIVE Shoe(_, _)
Shoe(r, i) == IF i >= Len(r) THEN 0 ELSE r[i][1] * r[i + 1][2] - r[i + 1][1] * r[i][2] + Shoe(r, i + 1)
RingArea2(r) == Abs(Shoe(r, 1))
RECURSIVE HolesArea2(_, _)
HolesArea2(c, i) == IF i > Len(c) THEN 0 ELSE RingArea2(c[i]) + HolesArea2(c, i + 1)
CellArea2(c) == IF Len(c) = 0 THEN 0 ELSE RingArea2(c[1]) - HolesArea2(c, 2)
RECURSIVE Area2From(_, _)
Area2From(cs, i) == IF i > Len(cs) THEN 0 ELSE CellArea2(cs[i]) + Area2From(cs, i + 1)
Area2(cs) == Area2From(cs, 1)
Vertices(cs) == UNION {{cs[i][j][k] : k \in 1..Len(cs[i][j])} : <<i, j>> \in {<<i, j>> \in (1..Len(cs)) \X (1..9) : j <= Len(cs[i])}}
MapRing(r, F(_)) == [i \in 1..Len(r) |-> F(r[i])]
MapCells(cs, F(_)) == [i \in 1..Len(cs) |-> [j \in 1..Len(cs[i]) |-> MapRing(cs[i][j], F)]]
Scaled(cs, k) == LET F(p) == <<p[1] * k, p[2] * k>> IN MapCells(cs, F)
\* --- distances to segments: certainly less / certainly not less than d ---
\* length in sixteenths, rounded down
SegLen16(a, b) == IRoot(256 * Sq(a, b), 0, 46341)
Closer(a, b, p, d) ==
  LET t == Dot(a, b, p) n == Sq(a, b) IN
  IF t <= 0 THEN Sq(a, p) < d * d ELSE IF t >= n THEN Sq(b, p) < d * d
  ELSE 16 * Abs(Cross(a, b, p)) < d * SegLen16(a, b)
NotCloser(a, b, p, d) ==
  LET t == Dot(a, b, p) n == Sq(a, b) IN
  IF t <= 0 THEN Sq(a, p) >= d * d ELSE IF t >= n THEN Sq(b, p) >= d * d
  ELSE 16 * Abs(Cross(a, b, p)) >= d * (SegLen16(a, b) + 1)
\* within d of some edge; at least d from all of them
CloserToAny(es, p, d) == \E e \in es : InBox(e[1], e[2], p, d) /\ Closer(e[1], e[2], p, d)
FarFromAll(es, p, d) == \A e \in es : ~InBox(e[1], e[2], p, d) \/ NotCloser(e[1], e[2], p, d)
=============================================================================
