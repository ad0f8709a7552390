------------------------------ MODULE TracksMC -------------------------------
(* Laws of the tracks over a cell (C17), over all triangles and quadrangles of *)
(* a small lattice, some directions and widths.                               *)
EXTENDS Tracks, TLC
CONSTANTS M
VARIABLES vs, d, w
P == (0..M) \X (0..M)
Init == vs \in {<<p>> : p \in {<<0, 0>>, <<1, 0>>}} /\ d \in {<<0, -1>>, <<3, 4>>} /\ w \in {4, 7}
Next == Len(vs) < 4 /\ UNCHANGED <<d, w>> /\ \E p \in P \ {vs[i] : i \in 1..Len(vs)} : vs' = Append(vs, p)
Spec == Init /\ [][Next]_<<vs, d, w>>
Apart(a, b, c, e) == ~(\/ OnSeg(a, b, c) \/ OnSeg(a, b, e) \/ OnSeg(c, e, a) \/ OnSeg(c, e, b)
                        \/ ((Cross(a, b, c) > 0) # (Cross(a, b, e) > 0) /\ (Cross(c, e, a) > 0) # (Cross(c, e, b) > 0)))
Simple == \/ Len(vs) = 3 /\ Cross(vs[1], vs[2], vs[3]) # 0
          \/ Len(vs) = 4 /\ Apart(vs[1], vs[2], vs[3], vs[4]) /\ Apart(vs[2], vs[3], vs[4], vs[1])
             /\ \A i \in 1..4 : Cross(vs[i], vs[(i % 4) + 1], vs[((i + 1) % 4) + 1]) # 0
C == <<Append(vs, vs[1])>>
N == NTracks(d, C, w)
Tv(k) == TrackV(d, C, w, k)
\* a clean track enters as often as it leaves
Even == Simple => \A k \in 1..N : ~Dirty(d, C, Tv(k)) => Cardinality(CrossesAt(d, C, Tv(k))) % 2 = 0 /\ CrossesAt(d, C, Tv(k)) # {}
\* the tracks are one width apart, the first half a width from the border, and no more than half a width is left over
Spread == Simple => LET L == Len2(d) lo == 16 * MinOf({VOf(d, p) : p \in Vertices(<<C>>)}) IN
  /\ Tv(1) - lo = L * w /\ \A k \in 1..N : Tv(k + 1) - Tv(k) = 2 * L * w
  /\ (N > 0 => TopV(d, C) - Tv(N) <= 2 * L * w) /\ (N = 0 => TopV(d, C) - lo <= L * w)
\* driving with half the width takes twice the tracks, up to one
Halved == Simple /\ w % 2 = 0 => NTracks(d, C, w \div 2) \in (2 * N - 1)..(2 * N + 1)
\* turning round drives the same tracks when the width fits, and otherwise as many up to one
Round == Simple => LET b == <<-d[1], -d[2]>> IN Abs(NTracks(b, C, w) - N) = 0
\* runs lie in the cell and follow one another
Inner == Simple => \A k \in 1..N : ~Dirty(d, C, Tv(k)) =>
  LET rs == Runs(d, C, Tv(k)) IN
  /\ \A j \in 1..Len(rs) : rs[j][1] <= rs[j][2]
  /\ \A j \in 2..Len(rs) : rs[j - 1][2] <= rs[j][1]
\* over a rectangle along its sides the runs times the width are its area
Rect == LET c == <<<< <<0, 0>>, <<M, 0>>, <<M, 2>>, <<0, 2>>, <<0, 0>> >>>> IN
  \A k \in 1..NTracks(<<1, 0>>, c, 4) : Runs(<<1, 0>>, c, TrackV(<<1, 0>>, c, 4, k)) = << <<0, 80 * M>> >> /\ NTracks(<<1, 0>>, c, 4) * 4 = 2 * 8
=============================================================================
