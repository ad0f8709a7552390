------------------------------ MODULE RegionMC -------------------------------
(* Laws of the exact plane geometry that decides polygons (C16 to C21), over   *)
(* all triangles and quadrangles of a small lattice.                          *)
EXTENDS Region, TLC
CONSTANTS M
VARIABLES vs
P == (0..M) \X (0..M)
Init == vs \in {<<p>> : p \in {<<0, 0>>, <<1, 0>>, <<0, 1>>}}
Next == Len(vs) < 4 /\ \E p \in P \ {vs[i] : i \in 1..Len(vs)} : vs' = Append(vs, p)
Spec == Init /\ [][Next]_vs
Ring(v) == Append(v, v[1])
Proper(a, b, c, d) == ~(\/ OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b)
                        \/ ((Cross(a, b, c) > 0) # (Cross(a, b, d) > 0) /\ (Cross(c, d, a) > 0) # (Cross(c, d, b) > 0)))
Simple == \/ Len(vs) = 3 /\ Cross(vs[1], vs[2], vs[3]) # 0
          \/ Len(vs) = 4 /\ Proper(vs[1], vs[2], vs[3], vs[4]) /\ Proper(vs[2], vs[3], vs[4], vs[1])
             /\ \A i \in 1..4 : Cross(vs[i], vs[(i % 4) + 1], vs[((i + 1) % 4) + 1]) # 0
Turned(v) == Tail(v) \o <<v[1]>>
Back(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
C(v) == <<Ring(v)>>
\* probes at odd halves of the lattice
Two(c) == [j \in 1..Len(c) |-> [i \in 1..Len(c[j]) |-> <<4 * c[j][i][1], 4 * c[j][i][2]>>]]
Probes == {<<x, y>> : x, y \in {4 * k + 2 : k \in (-1)..M}}
Off(c, p) == ~OnEdges(CellEdges(c), p)
\* where the border starts and which way it runs does not matter
SameIn == Simple => \A p \in Probes : Off(Two(C(vs)), p) =>
  LET i == InCell(Two(C(vs)), p) IN i = InCell(Two(C(Turned(vs))), p) /\ i = InCell(Two(C(Back(vs))), p)
SameArea == Simple => RingArea2(Ring(vs)) = RingArea2(Ring(Turned(vs))) /\ RingArea2(Ring(vs)) = RingArea2(Ring(Back(vs)))
Orient == Simple => Shoe(Ring(vs), 1) = -Shoe(Ring(Back(vs)), 1)
\* a triangle holds what is on the same side of all its edges
Triangle == (Simple /\ Len(vs) = 3) => \A p \in Probes : Off(Two(C(vs)), p) =>
  LET t == Two(C(vs))[1] IN InCell(Two(C(vs)), p) = ((\A i \in 1..3 : Cross(t[i], t[i + 1], p) > 0) \/ (\A i \in 1..3 : Cross(t[i], t[i + 1], p) < 0))
\* Pick's theorem: the area follows from the lattice points inside and on the border
Pick == Simple => LET b == {p \in P : OnEdges(RingEdges(Ring(vs)), p)} i == {p \in P \ b : InCell(C(vs), p)} IN
  RingArea2(Ring(vs)) = 2 * Cardinality(i) + Cardinality(b) - 2
\* a distance is not both less and not less than a bound
Sound == Simple => \A p \in P : \A d \in 1..(2 * M) : \A e \in RingEdges(Ring(vs)) : ~(Closer(e[1], e[2], p, d) /\ NotCloser(e[1], e[2], p, d))
=============================================================================
