-------------------------------- MODULE Rplan -------------------------------
(* Route planning over the headland (C15).  Rings are rectilinear closed point *)
(* sequences, swaths are point sequences; all coordinates are integers.  The   *)
(* headland network: every edge of a ring, and for every swath end and for the *)
(* start point the straight connector to the closest point of the rings.       *)
(* Points are linked when one of these segments holds both.  An answer is      *)
(* r.con, the connections, and r.groups, the groups of swaths                  *)
(* [id, w, type, cd, pts]; answered coordinates are in thousandths.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Last(s) == s[Len(s)]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* --- the network ---
RingSegs(rings) == UNION {{<<rings[i][j], rings[i][j + 1]>> : j \in 1..(Len(rings[i]) - 1)} : i \in 1..Len(rings)}
Clamp(x, a, b) == Max2(Min2(a, b), Min2(Max2(a, b), x))
ClosestOn(p, s) == <<Clamp(p[1], s[1][1], s[2][1]), Clamp(p[2], s[1][2], s[2][2])>>
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
\* closest points of the rings, more than one on ties
Closest(p, segs) == LET c == {ClosestOn(p, s) : s \in segs} IN {q \in c : \A r \in c : D2(p, q) <= D2(p, r)}
Proj(p, segs) == CHOOSE q \in Closest(p, segs) : TRUE
Swaths(e) == Flat(e.swaths)
Ends(e) == UNION {{s.pts[1], Last(s.pts)} : s \in {Swaths(e)[i] : i \in 1..Len(Swaths(e))}}
Starts(e) == {e.start[i] : i \in 1..Len(e.start)}
\* network: the segments, and the points where it can be left or joined
Net(e) == LET rs == TLCEval(RingSegs(Flat(e.cells))) IN TLCEval(rs \cup {<<p, Proj(p, rs)>> : p \in Ends(e) \cup Starts(e)})
NodesOf(net) == {s[1] : s \in net} \cup {s[2] : s \in net}
OnSeg(p, s) == ClosestOn(p, s) = p
Manh(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
Linked(net, p, q) == \E s \in net : OnSeg(p, s) /\ OnSeg(q, s)
\* lengths of shortest walks from p to all points; -1 when there is none
RECURSIVE Settle(_, _, _)
Settle(links, dist, open) ==
  IF open = {} THEN dist
  ELSE LET u == CHOOSE x \in open : \A y \in open : dist[x] <= dist[y]
           \* points next to u that get closer
           new == TLCEval({v \in links[u] : dist[v] = -1 \/ dist[v] > dist[u] + Manh(u, v)})
           d2 == TLCEval([v \in DOMAIN dist |-> IF v \in new THEN dist[u] + Manh(u, v) ELSE dist[v]]) IN
       Settle(links, d2, (open \ {u}) \cup new)
From(links, p) == Settle(links, TLCEval([v \in DOMAIN links |-> IF v = p THEN 0 ELSE -1]), {p})
Links(net) == LET n == NodesOf(net) IN TLCEval([u \in n |-> {v \in n \ {u} : Linked(net, u, v)}])
\* --- what was answered ---
Exact(r) == Abs(r - 1000 * ((r + 500) \div 1000)) <= 2
Pt(r) == <<(r[1] + 500) \div 1000, (r[2] + 500) \div 1000>>
ExactPts(rs) == \A i \in 1..Len(rs) : Exact(rs[i][1]) /\ Exact(rs[i][2])
Pts(rs) == [i \in 1..Len(rs) |-> Pt(rs[i])]
RECURSIVE Walked(_)
Walked(c) == IF Len(c) < 2 THEN 0 ELSE Manh(c[1], c[2]) + Walked(Tail(c))
\* c moves from p to q by a shortest walk of the network; dist are the lengths from p
MoveOk(net, dist, p, q, c) ==
  IF dist[q] = -1 THEN c = <<>>
  ELSE \/ p = q /\ c = <<>>
       \/ /\ c # <<>> /\ c[1] = p /\ Last(c) = q
          /\ \A i \in 1..(Len(c) - 1) : c[i] = c[i + 1] \/ Linked(net, c[i], c[i + 1])
          /\ Walked(c) = dist[q]
\* the swaths in order, with the connection driven before each
RECURSIVE Visits(_, _)
Visits(r, g) == IF g > Len(r.groups) THEN <<>>
  ELSE [k \in 1..Len(r.groups[g]) |-> [s |-> r.groups[g][k], con |-> IF k = 1 /\ g <= Len(r.con) THEN r.con[g] ELSE <<>>]] \o Visits(r, g + 1)
\* answered swath t is swath s, driven as it is or reversed
SameSw(t, s) == t.id = s.id /\ t.w = s.w /\ t.type = s.type /\ ExactPts(t.pts)
Forth(t, s) == SameSw(t, s) /\ Pts(t.pts) = s.pts /\ t.cd = s.cd
Back(t, s) == SameSw(t, s) /\ Pts(t.pts) = Rev(s.pts) /\ t.cd = ~s.cd
RouteShapeOk(r) == Len(r.con) \in {Len(r.groups), Len(r.groups) + 1} /\ \A i \in 1..Len(r.con) : ExactPts(r.con[i])
AllOnce(e, v) == LET sw == Swaths(e) IN
  /\ Len(v) = Len(sw)
  /\ \A i \in 1..Len(sw) : \E k \in 1..Len(v) : Forth(v[k].s, sw[i]) \/ (e.redirect /\ Back(v[k].s, sw[i]))
  /\ \A k, l \in 1..Len(v) : k # l => v[k].s.id # v[l].s.id
VStart(x) == Pt(x.s.pts[1])
VEnd(x) == Pt(Last(x.s.pts))
Distances(links, e) == TLCEval([p \in Ends(e) \cup Starts(e) |-> From(links, p)])
MovesOk(e, r, v, net, ds) ==
  /\ \A k \in 2..Len(v) : MoveOk(net, ds[VEnd(v[k - 1])], VEnd(v[k - 1]), VStart(v[k]), Pts(v[k].con))
  /\ IF e.start = <<>> THEN Pts(v[1].con) = <<>> /\ (Len(r.con) = Len(r.groups) \/ Last(r.con) = <<>>)
     ELSE /\ MoveOk(net, ds[e.start[1]], e.start[1], VStart(v[1]), Pts(v[1].con))
          /\ MoveOk(net, ds[VEnd(Last(v))], VEnd(Last(v)), e.start[1], IF Len(r.con) = Len(r.groups) THEN <<>> ELSE Pts(Last(r.con)))
\* --- cost of an order: the headland driven; unreachable counts as very far ---
Far == 1000000
Cost(ds, p, q) == IF p = q THEN 0 ELSE IF ds[p][q] = -1 THEN Far ELSE ds[p][q]
RECURSIVE TourCost(_, _, _)
TourCost(v, k, ds) == IF k >= Len(v) THEN 0 ELSE Cost(ds, VEnd(v[k]), VStart(v[k + 1])) + TourCost(v, k + 1, ds)
RouteCost(e, v, ds) == TourCost(v, 1, ds) + IF e.start = <<>> THEN 0 ELSE Cost(ds, e.start[1], VStart(v[1])) + Cost(ds, VEnd(Last(v)), e.start[1])
\* least cost of driving the swaths numbered by rest, being at p (<<>>: anywhere)
RECURSIVE Least(_, _, _, _)
Least(e, rest, p, ds) ==
  IF rest = {} THEN (IF e.start = <<>> THEN 0 ELSE Cost(ds, p, e.start[1]))
  ELSE LET c == UNION {LET s == Swaths(e)[i].pts a == s[1] b == Last(s) IN
                        {(IF p = <<>> THEN 0 ELSE Cost(ds, p, a)) + Least(e, rest \ {i}, b, ds)}
                        \cup (IF e.redirect THEN {(IF p = <<>> THEN 0 ELSE Cost(ds, p, b)) + Least(e, rest \ {i}, a, ds)} ELSE {}) : i \in rest}
       IN CHOOSE x \in c : \A y \in c : x <= y
LeastCost(e, ds) == Least(e, 1..Len(Swaths(e)), IF e.start = <<>> THEN <<>> ELSE e.start[1], ds)
\* swaths that meet are driven one after the other
Meeting(e) == LET s == Swaths(e) IN \E i, j \in 1..Len(s) : i < j /\ {s[i].pts[1], Last(s[i].pts)} \cap {s[j].pts[1], Last(s[j].pts)} # {}
\* the order asked for: <<number of the swath, reversed or not>>
Followed(e, v) == Len(v) = Len(e.order) /\ \A k \in 1..Len(v) :
  LET s == Swaths(e)[e.order[k][1]] IN IF e.order[k][2] = 1 THEN Back(v[k].s, s) ELSE Forth(v[k].s, s)
RWhy(S, e) ==
  IF e.x # "" THEN <<"C15", "unexpected exception " \o e.x>>
  ELSE IF Swaths(e) = <<>> \/ (e.op = "follow" /\ e.order = <<>>) THEN
    IF \A i \in 1..Len(e.r.groups) : e.r.groups[i] = <<>> THEN <<>> ELSE <<"C15", "swaths in a route over none">>
  ELSE IF ~RouteShapeOk(e.r) THEN <<"C15", "the route is not connections and swaths in turn on the network">>
  ELSE LET v == Visits(e.r, 1) IN
    IF e.op = "plan" /\ ~AllOnce(e, v) THEN <<"C15", "not every swath once with its attributes">>
    ELSE IF e.op = "follow" /\ ~Followed(e, v) THEN <<"C15", "the route does not follow the solution">>
    ELSE LET net == Net(e) ds == Distances(Links(net), e) IN
      IF ~MovesOk(e, e.r, v, net, ds) THEN <<"C15", "a move is not a shortest walk of the headland">>
      ELSE IF e.op = "plan" /\ Len(Swaths(e)) <= 5 /\ ~Meeting(e) /\ RouteCost(e, v, ds) # LeastCost(e, ds) THEN <<"C15", "the exact solver was not given the lengths of the moves">>
      ELSE <<>>
=============================================================================
