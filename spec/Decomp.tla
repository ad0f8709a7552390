------------------------------- MODULE Decomp -------------------------------
(* Decomposition of regions (C19).  Every vertex of a region sends cuts along *)
(* the split direction, both ways, until the border: all vertices for the     *)
(* trapezoidal decomposition, only those with ground on both sides for the    *)
(* boustrophedon one.  Where a sample point of the region ends up is decided  *)
(* from that alone: two points that see each other are in the same piece      *)
(* unless a cut passes between them; points that do not see each other are    *)
(* never in the same trapezoid, nor, if they are aligned with the split       *)
(* direction, in the same boustrophedon cell.                                 *)
EXTENDS Region
DStart == 0
\* across and along the split direction
T(d, p) == d[1] * p[2] - d[2] * p[1]
A(d, p) == d[1] * p[1] + d[2] * p[2]
N1(d) == Abs(d[1]) + Abs(d[2])
At80(p) == <<10 * p[1], 10 * p[2]>>
Holds(v, p) == Cardinality({i \in 1..Len(v) : InCell(v[i], p)})
PieceOf(v, p) == CHOOSE i \in 1..Len(v) : InCell(v[i], p)
InBoxes(a, b, e) ==
  /\ Max2(e[1][1], e[2][1]) >= Min2(a[1], b[1]) /\ Min2(e[1][1], e[2][1]) <= Max2(a[1], b[1])
  /\ Max2(e[1][2], e[2][2]) >= Min2(a[2], b[2]) /\ Min2(e[1][2], e[2][2]) <= Max2(a[2], b[2])
\* --- do two points see each other?  0: no, 1: yes, 2: too close to say ---
Meets(a, b, e) ==
  LET c1 == Cross(a, b, e[1]) c2 == Cross(a, b, e[2]) c3 == Cross(e[1], e[2], a) c4 == Cross(e[1], e[2], b)
      Apart(x, y) == (x > 0 /\ y > 0) \/ (x < 0 /\ y < 0)
  IN IF Apart(c1, c2) \/ Apart(c3, c4) THEN 0 ELSE IF c1 # 0 /\ c2 # 0 /\ c3 # 0 /\ c4 # 0 THEN 1 ELSE 2
Sees(es, a, b) ==
  IF \E e \in es : InBoxes(a, b, e) /\ Meets(a, b, e) = 1 THEN 0
  ELSE IF \E e \in es : InBoxes(a, b, e) /\ Meets(a, b, e) = 2 THEN 2 ELSE 1
\* --- the cuts ---
\* position along the direction where the segment a, b is at t across
AlongAt(d, a, b, t) == LET ta == T(d, a) tb == T(d, b) IN A(d, a) + ((A(d, b) - A(d, a)) * (t - ta)) \div (tb - ta)
\* ground beyond v towards +-d, past the edges that go that way
RECURSIVE Beyond(_, _, _, _, _)
Beyond(c, es, d, v, k) ==
  LET w == {p \in {e[1] : e \in {x \in es : x[2] = v}} \cup {e[2] : e \in {x \in es : x[1] = v}} :
              T(d, p) = T(d, v) /\ k * (A(d, p) - A(d, v)) > 0}
  IN IF w # {} THEN Beyond(c, es, d, CHOOSE p \in w : TRUE, k)
     ELSE InCell(c, <<v[1] + k * d[1], v[2] + k * d[2]>>)
Cuts(c, es, d, v, all) == all \/ (Beyond(c, es, d, v, 1) /\ Beyond(c, es, d, v, -1))
\* what is met first from position x at t across, going towards +-d: an edge or a vertex that cuts (0: neither for sure)
First(c, es, vs, d, t, x, k, all) ==
  LET m == 3 * N1(d) * N1(d)
      on == {v \in vs : T(d, v) = t /\ k * (A(d, v) - x) >= -m}
      cr == {y \in {AlongAt(d, e[1], e[2], t) : e \in {e \in es : (T(d, e[1]) < t /\ T(d, e[2]) > t) \/ (T(d, e[1]) > t /\ T(d, e[2]) < t)}} : k * (y - x) >= -m}
      nv == IF on = {} THEN 1000000 ELSE MinOf({k * (A(d, v) - x) : v \in on})
      ne == IF cr = {} THEN 1000000 ELSE MinOf({k * (y - x) : y \in cr})
  IN IF Min2(nv, ne) <= m THEN "close"
     ELSE IF nv = 1000000 \/ ne < nv - m THEN "edge"
     ELSE IF nv > ne - m /\ ne # 1000000 THEN "close"
     ELSE IF Cuts(c, es, d, CHOOSE v \in on : k * (A(d, v) - x) = nv, all) THEN "cut" ELSE "vertex"
\* is a cut between a and b, which see each other?  (at the vertices between them)
CutAt(c, es, vs, d, a, b, t, all) ==
  LET x == AlongAt(d, a, b, t) up == First(c, es, vs, d, t, x, 1, all) dn == First(c, es, vs, d, t, x, -1, all)
  IN IF up = "cut" \/ dn = "cut" THEN 1 ELSE IF up = "close" \/ dn = "close" THEN 2 ELSE 0
Between(c, es, vs, d, a, b, all) ==
  LET ta == T(d, a) tb == T(d, b)
      ts == {t \in {T(d, v) : v \in vs} : (ta < t /\ t < tb) \/ (tb < t /\ t < ta)}
      r == {CutAt(c, es, vs, d, a, b, t, all) : t \in ts}
  IN IF 1 \in r THEN 1 ELSE IF 2 \in r THEN 2 ELSE 0
\* --- the pieces ---
\* sample points of a cell away from borders and possible cuts
Samples(es, vs, d, c, ps) == {p \in ps : ~Near(es, p, 2) /\ InCell(c, p) /\ \A v \in vs : Abs(T(d, v) - T(d, p)) > 2 * N1(d)}
SameOK(c, v, d, ps, trap) ==
  LET es == CellEdges(c) vs == Vertices(<<c>>) qs == Samples(es, vs, d, c, ps) IN
  \A a \in qs : \A b \in qs :
    IF a = b \/ ~(a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])) THEN TRUE
    ELSE LET same == PieceOf(v, a) = PieceOf(v, b) see == Sees(es, a, b) IN
      IF see = 2 THEN TRUE
      ELSE IF see = 0 THEN (trap \/ T(d, a) = T(d, b)) => ~same
      ELSE LET cut == Between(c, es, vs, d, a, b, trap) IN
           cut = 2 \/ same = (cut = 0)
LineOK(cs, es, vs, d, l) ==
  Len(l) = 0 \/ (/\ Len(l) = 2 /\ l[1] \in vs
                 /\ Abs(T(d, l[2]) - T(d, l[1])) <= N1(d)
                 /\ \A k \in 1..15 : LET m == <<l[1][1] + ((l[2][1] - l[1][1]) * k) \div 16, l[1][2] + ((l[2][2] - l[1][2]) * k) \div 16>>
                                     IN Near(es, m, 3) \/ InRegion(cs, m))
DecWhy(e) ==
  LET cs == Scaled(e.v, U) es == Edges(cs) r == e.r v == r.pieces trap == e.kind = "trap"
      ps == {At80(e.ps[i]) : i \in 1..Len(e.ps)}
      free == {q \in ps : ~Near(es, q, 2) /\ \A w \in Vertices(cs) : Abs(T(e.d, w) - T(e.d, q)) > 2 * N1(e.d)}
  IN IF \E q \in free : Holds(v, q) # IF InRegion(cs, q) THEN 1 ELSE 0 THEN <<"C19", "ground lost, gained or in two pieces">>
     ELSE IF Abs(r.area2 - 100 * Area2(e.v)) > 2 THEN <<"C19", "the area changed">>
     ELSE IF \E i \in 1..Len(v) : Len(v[i]) # 1 THEN <<"C19", "a piece with holes">>
     ELSE IF \E i \in 1..Len(v) : r.areas[i] < 100 THEN <<"C19", "a piece without ground">>
     ELSE IF \E i \in 1..Len(cs) : ~SameOK(cs[i], v, e.d, ps, trap) THEN <<"C19", "a cell is cut in the wrong places">>
     ELSE IF \E i \in 1..Len(r.lines) : ~LineOK(cs, es, Vertices(cs), e.d, r.lines[i]) THEN <<"C19", "a split line">>
     ELSE IF r.split # v \/ r.merged # v \/ r.again # v THEN <<"C19", "splitting and merging differ from the decomposition">>
     ELSE IF r.same # e.v THEN <<"C19", "the field was changed">> ELSE <<>>
DWhy(e) ==
  IF e.x # "" THEN <<"C19", "a decomposition failed">>
  ELSE IF e.op = "angle" THEN IF e.r = e.v THEN <<>> ELSE <<"C19", "the split angle">>
  ELSE DecWhy(e)
=============================================================================
