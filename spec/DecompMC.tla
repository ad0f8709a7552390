------------------------------ MODULE DecompMC -------------------------------
(* Laws of sight and of cuts (C19), over all triangles and quadrangles of a   *)
(* small lattice and some split directions.                                   *)
EXTENDS Decomp, TLC
CONSTANTS M
VARIABLES vs, d
P == (0..M) \X (0..M)
Init == vs = << <<0, 0>> >> /\ d \in {<<1, 0>>, <<3, 4>>}
Next == Len(vs) < 4 /\ UNCHANGED d /\ \E p \in P \ {vs[i] : i \in 1..Len(vs)} : vs' = Append(vs, p)
Spec == Init /\ [][Next]_<<vs, d>>
Apart2(a, b, c, e) == ~(\/ OnSeg(a, b, c) \/ OnSeg(a, b, e) \/ OnSeg(c, e, a) \/ OnSeg(c, e, b)
                        \/ ((Cross(a, b, c) > 0) # (Cross(a, b, e) > 0) /\ (Cross(c, e, a) > 0) # (Cross(c, e, b) > 0)))
Turn3(i) == Cross(vs[i], vs[(i % Len(vs)) + 1], vs[((i + 1) % Len(vs)) + 1])
Simple == \/ Len(vs) = 3 /\ Turn3(1) # 0
          \/ Len(vs) = 4 /\ Apart2(vs[1], vs[2], vs[3], vs[4]) /\ Apart2(vs[2], vs[3], vs[4], vs[1]) /\ \A i \in 1..4 : Turn3(i) # 0
Convex4 == (\A i \in 1..Len(vs) : Turn3(i) > 0) \/ (\A i \in 1..Len(vs) : Turn3(i) < 0)
C == Scaled(<< <<Append(vs, vs[1])>> >>, U)[1]
ES == CellEdges(C)
VS == Vertices(<<C>>)
Probes == Samples(ES, VS, d, C, {<<40 * x + 13, 40 * y + 17>> : x \in 0..(2 * M), y \in 0..(2 * M)})
Cut(a, b, all) == Between(C, ES, VS, d, a, b, all)
\* sight and cuts are the same both ways
Symmetric == Simple => \A a, b \in Probes : Sees(ES, a, b) = Sees(ES, b, a) /\ (Sees(ES, a, b) = 1 => \A t \in BOOLEAN : Cut(a, b, t) = Cut(b, a, t))
\* a boustrophedon cut is a trapezoidal one
Finer == Simple => \A a, b \in Probes : (Sees(ES, a, b) = 1 /\ Cut(a, b, FALSE) = 1) => Cut(a, b, TRUE) = 1
\* in convex cells everything is seen, and nothing cut by the boustrophedon decomposition
Whole == (Simple /\ Convex4) => \A a, b \in Probes : Sees(ES, a, b) # 0 /\ Cut(a, b, FALSE) # 1
\* between two corners, a trapezoidal decomposition cuts nothing
Strip == Simple => \A a, b \in Probes : ~(\E v \in VS : (T(d, v) > T(d, a)) # (T(d, v) > T(d, b))) => Cut(a, b, TRUE) = 0
\* on one side of a corner seen by both, on the other side of its cut: a corner strictly between two points of a convex cell does cut
Corner == (Simple /\ Convex4) => \A a, b \in Probes : (\E v \in VS : (T(d, v) > T(d, a)) # (T(d, v) > T(d, b))) => Cut(a, b, TRUE) # 0
=============================================================================
