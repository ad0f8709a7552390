---------------------------- MODULE RegionShapes ----------------------------
(* Random valid lattice polygons: monotone ones with random chains and holes, *)
(* and a library of awkward ones, in every orientation.                       *)
EXTENDS Region, TLC, Json
VARIABLES hist
\* refers to a variable so that TLC draws anew every time
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
Close1(r) == Append(r, r[1])
RevSeq(r) == [i \in 1..Len(r) |-> r[Len(r) + 1 - i]]
\* open ring: another start vertex, another orientation
Shuffle(r) ==
  LET k == R(0..(Len(r) - 1)) s == [i \in 1..Len(r) |-> r[((i - 1 + k) % Len(r)) + 1]]
  IN Close1(IF R(1..2) = 1 THEN RevSeq(s) ELSE s)
RECURSIVE Chain(_, _, _)
Chain(i, n, Y) == IF i > n THEN <<>> ELSE <<R(Y)>> \o Chain(i + 1, n, Y)
Columns(n) == [i \in 1..n |-> 5 * (i - 1) + R(0..4)]
\* rings are open here
Monotone ==
  LET n == R(2..5) xs == Columns(n) lo == Chain(1, n, 0..8) up == Chain(1, n, 14..22) IN
  [i \in 1..(2 * n) |-> IF i <= n THEN <<xs[i], lo[i]>> ELSE <<xs[2 * n + 1 - i], up[2 * n + 1 - i]>>]
\* like Monotone but wide enough for holes in x 5..20, y 9..13
Wide == LET n == R(2..4) xs == [i \in 1..n |-> IF i = 1 THEN R(0..4) ELSE IF i = n THEN R(21..24) ELSE 4 + 4 * i + R(0..3)]
            lo == Chain(1, n, 0..8) up == Chain(1, n, 14..22) IN
  [i \in 1..(2 * n) |-> IF i <= n THEN <<xs[i], lo[i]>> ELSE <<xs[2 * n + 1 - i], up[2 * n + 1 - i]>>]
Box(x, y, w, h) == << <<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>> >>
Hole(x) == LET k == R(1..4) w == R(2..5) h == R(1..4) IN
  CASE k = 1 -> Box(x, 9, w, h)
    [] k = 2 -> << <<x, 9>>, <<x + w, 9 + R(0..h)>>, <<x + R(0..w), 10 + h - 1>> >>
    [] k = 3 -> << <<x, 11>>, <<x + 2, 9>>, <<x + 4, 11>>, <<x + 2, 13>> >>
    [] OTHER -> << <<x, 9>>, <<x + 5, 9>>, <<x + 5, 13>>, <<x + 3, 10>> >>
\* degenerate draws of the second kind are replaced
GoodHole(h) == IF \E i \in 3..Len(h) : Cross(h[1], h[2], h[i]) # 0 THEN h ELSE Box(h[1][1], 9, 2, 2)
Library == <<
  << <<0,0>>, <<20,0>>, <<20,5>>, <<6,5>>, <<6,15>>, <<20,15>>, <<20,20>>, <<0,20>> >>,
  << <<0,0>>, <<20,0>>, <<20,18>>, <<14,18>>, <<14,6>>, <<8,6>>, <<8,18>>, <<0,18>> >>,
  << <<0,0>>, <<6,0>>, <<6,8>>, <<14,8>>, <<14,0>>, <<20,0>>, <<20,20>>, <<14,20>>, <<14,12>>, <<6,12>>, <<6,20>>, <<0,20>> >>,
  << <<0,0>>, <<22,0>>, <<22,22>>, <<4,22>>, <<4,8>>, <<14,8>>, <<14,14>>, <<10,14>>, <<10,18>>, <<18,18>>, <<18,4>>, <<0,4>> >>,
  << <<0,0>>, <<24,0>>, <<24,12>>, <<20,4>>, <<16,12>>, <<12,4>>, <<8,12>>, <<4,4>>, <<0,12>> >>,
  << <<0,0>>, <<12,0>>, <<12,6>>, <<6,6>>, <<6,12>>, <<0,12>> >>,
  << <<8,0>>, <<16,0>>, <<16,8>>, <<24,8>>, <<24,16>>, <<16,16>>, <<16,24>>, <<8,24>>, <<8,16>>, <<0,16>>, <<0,8>>, <<8,8>> >>,
  << <<0,0>>, <<10,0>>, <<20,0>>, <<20,10>>, <<20,20>>, <<10,20>>, <<0,20>>, <<0,10>> >>,
  << <<12,0>>, <<24,12>>, <<12,24>>, <<0,12>> >>,
  << <<0,0>>, <<20,0>>, <<10,16>> >>,
  << <<0,0>>, <<24,0>>, <<12,3>>, <<24,20>>, <<0,20>>, <<12,17>> >>,
  << <<0,0>>, <<3,0>>, <<3,20>>, <<0,20>> >>,
  << <<0,0>>, <<11,1>>, <<23,2>>, <<23,20>>, <<0,22>> >>,
  << <<0,1>>, <<12,2>>, <<23,3>>, <<24,14>>, <<24,22>>, <<0,20>> >>,
  << <<1,0>>, <<24,5>>, <<23,16>>, <<22,24>>, <<9,24>>, <<0,10>> >> >>
\* a random symmetry of the 24 x 24 square
Turned(c) ==
  LET sw == R(BOOLEAN) mx == R(BOOLEAN) my == R(BOOLEAN)
      T(p) == LET x == IF sw THEN p[2] ELSE p[1] y == IF sw THEN p[1] ELSE p[2]
              IN <<IF mx THEN 24 - x ELSE x, IF my THEN 24 - y ELSE y>>
  IN [j \in 1..Len(c) |-> MapRing(c[j], T)]
Moved(c, dx, dy) == LET T(p) == <<p[1] + dx, p[2] + dy>> IN [j \in 1..Len(c) |-> MapRing(c[j], T)]
\* rings of a cell, still open
OpenCell ==
  LET k == R(1..6) IN
  CASE k \in {1, 2} -> <<Monotone>>
    [] k = 3 -> <<Wide, GoodHole(Hole(R(5..14)))>>
    [] k = 4 -> <<Wide, GoodHole(Hole(R(5..7))), GoodHole(Hole(R(13..15)))>>
    [] OTHER -> <<Library[R(1..Len(Library))]>>
Finish(c) == [j \in 1..Len(c) |-> Shuffle(c[j])]
ACell == Finish(Turned(OpenCell))
\* one cell, or two side by side, or a third one above them
Beside == Finish(Moved(Turned(OpenCell), R({25, 27}), R(0..3)))
Above == Finish(Moved(Turned(OpenCell), R(0..20), R({28, 30})))
ARegion == LET k == R(1..8) IN IF k = 1 THEN <<ACell, Above, Beside>> ELSE IF k = 2 THEN <<ACell, Beside>> ELSE <<ACell>>
Away == LET r == ARegion dx == R({0, 13}) dy == R(0..6) IN [i \in 1..Len(r) |-> Moved(r[i], dx, dy)]
=============================================================================
