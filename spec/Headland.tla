------------------------------ MODULE Headland ------------------------------
(* Headlands of constant width (C16).  The mainland is what is left of the    *)
(* field after removing, along every border, the strip of the given width;    *)
(* around a corner that points into the field the strips are prolonged until  *)
(* they meet.  Rectilinear fields are decided square by square, all others    *)
(* at sample points.  Widths of the former are whole numbers, of the latter   *)
(* eighths.                                                                   *)
EXTENDS Region
\* --- square by square ---
N == 30
Grid == {<<x, y>> : x \in 0..(N - 1), y \in 0..(N - 1)}
TwiceEdges(cs) == {<< <<2 * e[1][1], 2 * e[1][2]>>, <<2 * e[2][1], 2 * e[2][2]>> >> : e \in Edges(cs)}
Squares(cs) == LET es == TwiceEdges(cs) IN {g \in Grid : InEdges(es, <<2 * g[1] + 1, 2 * g[2] + 1>>)}
Shrunk(F, w) ==
  LET X == {g \in F : \A d \in (-w)..w : <<g[1] + d, g[2]>> \in F} IN
  {g \in X : \A d \in (-w)..w : <<g[1], g[2] + d>> \in X}
\* a whole row or column of squares is w wide when the square w away is in
Grown(F, w) ==
  LET X == {g \in Grid : \E d \in (-w)..w : <<g[1] + d, g[2]>> \in F} IN
  {g \in Grid : \E d \in (-w)..w : <<g[1], g[2] + d>> \in X}
\* o: [v |-> polygons in 80ths, area2 |-> twice the area, in hundredths]
InObs(o, p) == Cardinality({i \in 1..Len(o.v) : InCell(o.v[i], p)})
IsSquares(o, G) ==
  /\ Abs(o.area2 - 200 * Cardinality(G)) <= 2
  /\ \A g \in Grid : InObs(o, <<80 * g[1] + 40, 80 * g[2] + 40>>) = IF g \in G THEN 1 ELSE 0
\* --- sample points; region, points and widths in 80ths ---
\* corners as triples <<before, corner, after>>
RingCorners(r) == LET n == Len(r) - 1 IN {<<r[IF i = 1 THEN n ELSE i - 1], r[i], r[i + 1]>> : i \in 1..n}
Corners(cs) == UNION {UNION {RingCorners(cs[i][j]) : j \in 1..Len(cs[i])} : i \in 1..Len(cs)}
\* corners of a cell that point into it
RECURSIVE Twice(_, _)
Twice(r, i) == IF i >= Len(r) THEN 0 ELSE r[i][1] * r[i + 1][2] - r[i + 1][1] * r[i][2] + Twice(r, i + 1)
Inward(cell) == UNION {LET ccw == Twice(cell[j], 1) > 0 IN {c \in RingCorners(cell[j]) : IF ccw = (j = 1) THEN Cross(c[1], c[2], c[3]) < 0 ELSE Cross(c[1], c[2], c[3]) > 0} : j \in 1..Len(cell)}
\* how sharp: the sine of half the angle between the edges is below 1/4 (cos > 7/8)
Sharp(c) == LET d == Dot(c[2], c[1], c[3]) IN
  d > 0 /\ 128 * d > 7 * ((SegLen16(c[2], c[1]) * SegLen16(c[2], c[3])) \div 16)
\* within w of the line through a and b
Within(a, b, p, w) == 16 * Abs(Cross(a, b, p)) <= w * SegLen16(a, b)
NotWithin(a, b, p, w) == 16 * Abs(Cross(a, b, p)) > w * (SegLen16(a, b) + 1)
Beyond(c, p) == Dot(c[1], c[2], p) > Sq(c[1], c[2]) /\ Dot(c[3], c[2], p) > Sq(c[3], c[2])
Kite(c, p, w) == InBox(c[2], c[2], p, 6 * w) /\ Beyond(c, p) /\ Within(c[1], c[2], p, w) /\ Within(c[2], c[3], p, w)
NoKite(c, p, w) == ~InBox(c[2], c[2], p, 6 * w) \/ ~Beyond(c, p) \/ NotWithin(c[1], c[2], p, w) \/ NotWithin(c[2], c[3], p, w)
Slack(w) == 4 + w \div 30
\* 1: stays, 0: is removed, 2: too close to tell.  Regions in tenths to keep
\* squares of distances small.
Stays(cs, es, cr, p, w) ==
  IF \E c \in cr : Sharp(c) /\ InBox(c[2], c[2], p, 6 * w) THEN 2
  ELSE IF Near(es, p, 2) THEN 2
  ELSE IF ~InEdges(es, p) THEN 0
  ELSE IF CloserToAny(es, p, w - Slack(w)) THEN 0
  ELSE IF \E i \in 1..Len(cs) : InCell(cs[i], p) /\ \E c \in Inward(cs[i]) : Kite(c, p, w - Slack(w)) THEN 0
  ELSE IF FarFromAll(es, p, w + Slack(w)) /\ \A c \in cr : NoKite(c, p, w + Slack(w)) THEN 1
  ELSE 2
\* points just inside and just outside the strips
Probes(es, w) ==
  UNION {LET dx == e[2][1] - e[1][1] dy == e[2][2] - e[1][2] L == IRoot(Sq(e[1], e[2]), 0, 46341)
             At(k) == <<(k * e[1][1] + (6 - k) * e[2][1]) \div 6, (k * e[1][2] + (6 - k) * e[2][2]) \div 6>>
         IN {<<At(k)[1] - (f * dy) \div L, At(k)[2] + (f * dx) \div L>> : k \in {-1, 1, 3, 5, 7}, f \in {w + 2 * Slack(w), -(w + 2 * Slack(w)), w - 2 * Slack(w), 2 * Slack(w) - w}}
         : e \in es}
MainlandOK(cells, w8, o, ps) ==
  LET cs == Scaled(cells, 80) es == Edges(cs) cr == Corners(cs) w == 10 * w8
      all == Probes(es, w) \cup {<<10 * ps[i][1], 10 * ps[i][2]>> : i \in 1..Len(ps)}
  IN \A p \in all : LET s == Stays(cs, es, cr, p, w) IN s = 2 \/ InObs(o, p) = s
RECURSIVE Shrinks(_, _, _)
\* rings from the outside in: half a width, then whole widths
OutIn(F, w, n) == [i \in 1..n |-> Shrunk(F, ((2 * i - 1) * w) \div 2)]
\* from the inside out: the innermost one, then always one width further out
Shrinks(G, w, n) == IF n = 0 THEN <<>> ELSE <<G>> \o Shrinks(Grown(G, w), w, n - 1)
InOut(F, w, n) == IF n = 0 THEN <<>> ELSE Shrinks(Shrunk(F, ((2 * n - 1) * w) \div 2), w, n)
Rings(F, w, n, o2i) == IF o2i THEN OutIn(F, w, n) ELSE InOut(F, w, n)
\* every ring is inside the ring or border further out, and the innermost one
\* of the inside-out order is where it has to be
RingsOK(cells, e) ==
  LET n == e.n rs == e.r.rings IN
  /\ Len(rs) = n
  /\ IF e.o2i THEN \A i \in 1..n : MainlandOK(cells, ((2 * i - 1) * e.w) \div 2, rs[i], e.ps)
     ELSE \A i \in 1..n : IF i = 1 THEN MainlandOK(cells, ((2 * n - 1) * e.w) \div 2, rs[1], e.ps)
          ELSE LET cs == Scaled(cells, 80) es == Edges(cs) cr == Corners(cs) w == 5 * (2 * (n - i) + 1) * e.w IN
               \A p \in {<<10 * e.ps[j][1], 10 * e.ps[j][2]>> : j \in 1..Len(e.ps)} \cup Probes(es, w) :
                 /\ (InObs(rs[i - 1], p) = 1 => InObs(rs[i], p) = 1)
                 /\ (Stays(cs, es, cr, p, w) = 0 => InObs(rs[i], p) = 0)
\* from the outside in every ring is the mainland behind half a width less, all
\* of it, around sharp corners too
SameRegion(a, b, ps) == Abs(a.area2 - b.area2) <= 4 /\ \A p \in ps : InObs(a, p) = InObs(b, p)
AsMainland(e) == e.o2i => \A i \in 1..e.n : SameRegion(e.r.rings[i], e.r.main[i], {})
HWhy(s, e) ==
  IF e.x # "" THEN <<"C16", "headland generation failed">>
  ELSE CASE e.op = "hlx" -> IF IsSquares(e.r, Shrunk(Squares(e.v), e.w)) THEN <<>> ELSE <<"C16", "the mainland of a rectilinear field">>
    [] e.op = "areax" -> IF IsSquares(e.r, Shrunk(Squares(e.v), e.w * e.n)) THEN <<>> ELSE <<"C16", "the mainland behind some swaths">>
    [] e.op = "ringsx" ->
         LET want == Rings(Squares(e.v), e.w, e.n, e.o2i) IN
         IF Len(e.r.rings) # e.n THEN <<"C16", "the number of headland rings">>
         ELSE IF \E i \in 1..e.n : ~IsSquares(e.r.rings[i], want[i]) THEN <<"C16", "a headland ring of a rectilinear field">> ELSE <<>>
    [] e.op = "hl" -> IF MainlandOK(e.v, e.w, e.r, e.ps) THEN <<>> ELSE <<"C16", "the mainland">>
    [] e.op = "area" -> IF MainlandOK(e.v, e.w * e.n, e.r, e.ps) THEN <<>> ELSE <<"C16", "the mainland behind some swaths">>
    [] e.op = "rings" -> IF RingsOK(e.v, e) /\ AsMainland(e) THEN <<>> ELSE <<"C16", "the headland rings">>
    [] e.op = "none" -> IF e.r.v = <<>> THEN <<>> ELSE <<"C16", "something is left of a field that is too narrow">>
=============================================================================
