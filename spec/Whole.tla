------------------------------- MODULE Whole -------------------------------
(* Planning a coverage route and path in one call (C27).  Fields are            *)
(* rectilinear with even coordinates (metres), robot widths are even and        *)
(* coverage widths 2 mod 4, so that borders of the mainland are even and tracks  *)
(* are odd.  The field is a set of 2 m squares (mainland) or of 1 m squares      *)
(* (the ring driven on); routes are judged as in Rplan, paths as in Plan.        *)
EXTENDS Rplan
P == INSTANCE Plan
CONSTANT Size \* in 2 m squares
\* --- squares ---
Crosses(r, x2, y2) == {j \in 1..(Len(r) - 1) : r[j][1] = r[j + 1][1] /\ 2 * r[j][1] > x2 /\ (2 * r[j][2] < y2) # (2 * r[j + 1][2] < y2)}
InCell(c, x2, y2) == LET f[i \in 0..Len(c)] == IF i = 0 THEN 0 ELSE f[i - 1] + Cardinality(Crosses(c[i], x2, y2)) IN f[Len(c)] % 2 = 1
\* square <<x, y>> covers 2x .. 2x+2; its middle is at 2x + 1
Coarse(cs) == {g \in (0..Size) \X (0..Size) : \E i \in 1..Len(cs) : InCell(cs[i], 4 * g[1] + 2, 4 * g[2] + 2)}
Fine(F) == {<<2 * g[1] + a, 2 * g[2] + b>> : g \in F, a \in {0, 1}, b \in {0, 1}}
Shrunk(F, w) ==
  LET X == TLCEval({g \in F : \A d \in (-w)..w : <<g[1] + d, g[2]>> \in F}) IN
  {g \in X : \A d \in (-w)..w : <<g[1], g[2] + d>> \in X}
Grown(F) == UNION {{<<g[1] + a, g[2] + b>> : a \in -1..1, b \in -1..1} : g \in F}
\* nothing of the field F is just too narrow for a strip of o metres on both sides
Firm(F, o) == o = 0 \/ Shrunk(Fine(F), o - 1) \subseteq Grown(Shrunk(Fine(F), o))
\* --- borders of a set of 1 m squares: maximal segments ---
\* unit edges of one kind are numbered by their lower or left end
Runs(S, dx, dy) == \* S: unit edges along (dx, dy); the segments they make up
  LET starts == {p \in S : <<p[1] - dx, p[2] - dy>> \notin S}
      Till(p) == CHOOSE n \in 1..(3 * Size) : (\A k \in 0..(n - 1) : <<p[1] + k * dx, p[2] + k * dy>> \in S) /\ <<p[1] + n * dx, p[2] + n * dy>> \notin S
  IN {<<p, <<p[1] + Till(p) * dx, p[2] + Till(p) * dy>>>> : p \in starts}
Segs(R) ==
  Runs({g \in R : <<g[1], g[2] - 1>> \notin R}, 1, 0)
  \cup Runs({<<g[1], g[2] + 1>> : g \in {h \in R : <<h[1], h[2] + 1>> \notin R}}, 1, 0)
  \cup Runs({g \in R : <<g[1] - 1, g[2]>> \notin R}, 0, 1)
  \cup Runs({<<g[1] + 1, g[2]>> : g \in {h \in R : <<h[1] + 1, h[2]>> \notin R}}, 0, 1)
\* --- the mainland and its tracks ---
RECURSIVE Reach(_, _)
Reach(S, M) == LET T == TLCEval(S \cup {g \in M : \E h \in S : Abs(g[1] - h[1]) + Abs(g[2] - h[2]) = 1}) IN IF T = S THEN S ELSE Reach(T, M)
RECURSIVE Parts(_)
Parts(M) == IF M = {} THEN <<>> ELSE LET g == CHOOSE x \in M : TRUE c == Reach({g}, M) IN <<c>> \o Parts(M \ c)
Lo(S) == CHOOSE x \in S : \A y \in S : x <= y
Hi(S) == CHOOSE x \in S : \A y \in S : x >= y
\* lines of the tracks of part C, driving along d quarter turns
TrackAt(C, cw, d) ==
  LET i == IF d % 2 = 0 THEN 2 ELSE 1
      lo == 2 * Lo({g[i] : g \in C}) hi == 2 * Hi({g[i] : g \in C}) + 2
      m == (hi - lo) \div cw + 1 IN
  {t \in {IF d \in {0, 3} THEN lo + cw * k + cw \div 2 ELSE hi - cw * k - cw \div 2 : k \in 0..m} : lo < t /\ t < hi}
LinesOf(C, cw, d) ==
  UNION {LET row == IF d % 2 = 0 THEN {g[1] : g \in {h \in C : h[2] = (t - 1) \div 2}} ELSE {g[2] : g \in {h \in C : h[1] = (t - 1) \div 2}}
             Till(a) == CHOOSE n \in 1..(Size + 1) : (\A k \in 0..(n - 1) : a + k \in row) /\ a + n \notin row
             At(u) == IF d % 2 = 0 THEN <<u, t>> ELSE <<t, u>> IN
         {<<At(2 * a), At(2 * (a + Till(a)))>> : a \in {a \in row : a - 1 \notin row}} : t \in TrackAt(C, cw, d)}
\* --- judging ---
Rings(e) == IF e.hg = "none" THEN 0 ELSE e.n
Mainland(e, F) == Shrunk(F, (Rings(e) * e.w) \div 2)
\* the ring the headland is driven on: the middle one
Ring(e, F) == IF Rings(e) = 0 THEN Fine(F) ELSE Shrunk(Fine(F), (2 * (e.n \div 2) + 1) * (e.w \div 2))
Line(t) == Pts(t.pts)
IsLine(t, l) == Len(t.pts) = 2 /\ ExactPts(t.pts) /\ (Line(t) = l \/ Rev(Line(t)) = l)
Plain(e, t) == t.w = e.cw /\ t.type = 0
PartOk(e, v, lines) ==
  LET mine == {k \in 1..Len(v) : \E l \in lines : IsLine(v[k].s, l)} IN
  /\ \A l \in lines : Cardinality({k \in mine : IsLine(v[k].s, l)}) = 1
  /\ {v[k].s.id : k \in mine} = 0..(Cardinality(lines) - 1)
Good(p, segs) == Cardinality(Closest(p, segs)) = 1 /\ LET q == Proj(p, segs) IN p[1] = q[1] \/ p[2] = q[2]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET l == CHOOSE x \in S : TRUE IN <<[pts |-> l]>> \o SeqOf(S \ {l})
DrivenOn(e, r, v, lines, F) ==
  LET rs == TLCEval(Segs(Ring(e, F))) o == [swaths |-> <<SeqOf(lines)>>, start |-> <<>>] ends == Ends(o) IN
  IF \E p \in ends : ~Good(p, rs) THEN TRUE
  ELSE LET net == TLCEval(rs \cup {<<p, Proj(p, rs)>> : p \in ends}) IN MovesOk(o, r, v, net, Distances(Links(net), o))
\* the path visits the points of the swaths in the order of the route
SwathPts(r) == Flat([k \in 1..Len(Visits(r, 1)) |-> LET p == Visits(r, 1)[k].s.pts IN SubSeq(p, 1, Len(p) - 1)])
Close(p, q) == Abs(p[1] - q[1]) <= 3 /\ Abs(p[2] - q[2]) <= 3
Working(p) == SelectSeq(p, LAMBDA s : s[7] = 1)
\* behind the end there may be one more state
DrivesSwaths(r) == LET p == Working(r.path) w == SwathPts(r) IN
  /\ Len(p) \in {Len(w), Len(w) + 1}
  /\ \A i \in 1..Len(w) : Close(p[i], w[i])
PathParts(r) == [i \in 1..Len(r.con) |-> [con |-> Pts(r.con[i]), swaths |-> IF i <= Len(r.groups) THEN [k \in 1..Len(r.groups[i]) |-> Line(r.groups[i][k])] ELSE <<>>]]
PathOk(e) == P!Drives([r |-> [path |-> e.r.path], cruise |-> e.cruise, turn |-> e.turn], P!Legs(PathParts(e.r), 1, <<>>, <<>>), 1, 1, 1, P!Robots[e.robot])
Kinds == <<"dubins", "dubinscc", "reeds", "reedshc">>
TurnsOf(e) == \A i \in 1..Len(e.r.used) : e.r.used[i] = <<Kinds[e.pp], 1000 * P!Robots[e.robot][1], 10000>>
\* swaths of the best angle: those that the search for it finds on this mainland
SameBest(e, v) ==
  /\ Len(v) = Len(e.r.best)
  /\ \A i \in 1..Len(v) : \E k \in 1..Len(v) : LET a == v[k].s.pts b == e.r.best[i] IN
       Len(a) = Len(b) /\ \/ \A j \in 1..Len(a) : Close(a[j], b[j])
                          \/ \A j \in 1..Len(a) : Close(a[j], Rev(b)[j])
  /\ \A i \in 1..Len(v) : \E k \in 1..Len(v) : LET b == v[i].s.pts a == e.r.best[k] IN
       Len(a) = Len(b) /\ \/ \A j \in 1..Len(a) : Close(a[j], b[j])
                          \/ \A j \in 1..Len(a) : Close(a[j], Rev(b)[j])
WWhy(S, e) ==
  IF e.x # "" THEN <<"C27", "unexpected exception " \o e.x>>
  ELSE IF e.r.before # e.r.after THEN <<"C27", "planning changed the caller's field">>
  ELSE LET F == TLCEval(Coarse(e.cells)) M == TLCEval(Mainland(e, F)) v == Visits(e.r, 1) IN
    IF ~Firm(F, Rings(e) * e.w) \/ (Rings(e) # 0 /\ ~Firm(F, (2 * (e.n \div 2) + 1) * (e.w \div 2))) THEN <<>>
    ELSE IF M = {} THEN (IF v = <<>> /\ e.r.path = <<>> THEN <<>> ELSE <<"C27", "a plan although nothing is left of the field">>)
    ELSE IF v = <<>> THEN (IF e.r.path = <<>> /\ (IF e.sg = "best" THEN e.r.best = <<>> ELSE \A i \in 1..Len(Parts(M)) : LinesOf(Parts(M)[i], e.cw, e.d) = {}) THEN <<>> ELSE <<"C27", "no plan">>)
    ELSE IF \E k \in 1..Len(v) : ~Plain(e, v[k].s) THEN <<"C27", "a swath is not of the coverage width">>
    ELSE IF ~TurnsOf(e) THEN <<"C27", "turns are not of the chosen kind">>
    ELSE IF ~DrivesSwaths(e.r) THEN <<"C27", "the path does not drive the swaths of the route">>
    ELSE IF e.sg = "best" THEN (IF e.kind \in {"geo", "utm"} \/ SameBest(e, v) THEN <<>> ELSE <<"C27", "the swaths are not those of the best angle">>)
    ELSE LET ps == Parts(M) ls == [i \in 1..Len(ps) |-> TLCEval(LinesOf(ps[i], e.cw, e.d))] all == UNION {ls[i] : i \in 1..Len(ls)} IN
      IF Len(v) # Cardinality(all) \/ \E i \in 1..Len(ls) : ~PartOk(e, v, ls[i]) THEN <<"C27", "not every swath of the mainland once">>
      ELSE IF ~RouteShapeOk(e.r) \/ ~DrivenOn(e, e.r, v, all, F) THEN <<"C27", "a move is not a shortest walk on the middle headland ring">>
      ELSE IF e.kind \notin {"geo", "utm"} /\ ~PathOk(e) THEN <<"C27", "the path does not drive the route in order without gaps">>
      ELSE <<>>
=============================================================================
