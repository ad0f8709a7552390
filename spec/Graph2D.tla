------------------------------ MODULE Graph2D ------------------------------
(* Graphs whose nodes are points: a stable numbering of the points on top of *)
(* the graph of Graph.tla.  pts is the sequence of points by first           *)
(* appearance, so the number of a point is its position minus one.  A second *)
(* graph lends its shortest-path costs.                                      *)
EXTENDS Graph
PNone == [pts |-> <<>>, g |-> Empty]
S0 == [main |-> PNone, aux |-> PNone]

Pos(s, p) == {k \in DOMAIN s.pts : s.pts[k] = p}
Has(s, p) == Pos(s, p) # {}
Ix(s, p) == (CHOOSE k \in Pos(s, p) : TRUE) - 1
Intern(s, p) == IF Has(s, p) THEN s ELSE [s EXCEPT !.pts = Append(@, p)]
PAddD(s, a, b, c) ==
  LET t == Intern(Intern(s, a), b)
  IN [t EXCEPT !.g = AddD(t.g, Ix(t, a), Ix(t, b), c)]
PAddU(s, a, b, c) == PAddD(PAddD(s, a, b, c), b, a, c)
PRemD(s, a, b) == [s EXCEPT !.g = RemD(s.g, Ix(s, a), Ix(s, b))]
PRemU(s, a, b) == PRemD(PRemD(s, a, b), b, a)

\* 1000 times the distance, rounded down
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2
                        IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Geo(a, b) ==
  LET d2 == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
  IN Root(1000000 * d2, 0, 46341)
PDist(s, a, b) == DistN(s.g, Ix(s, a), Ix(s, b))

\* operations refused because a point is not in the graph
Refused(s, e) ==
  CASE e.op \in {"remD", "remU", "cost", "path", "icost", "all", "ecost"} ->
         ~(Has(s.main, e.a) /\ Has(s.main, e.b))
    [] e.op \in {"borD", "borU"} -> ~(Has(s.aux, e.a) /\ Has(s.aux, e.b))
    [] e.op = "index" -> ~Has(s.main, e.a)
    [] e.op = "node" -> e.i >= Len(s.main.pts)
    [] OTHER -> FALSE
Do(s, e) ==
  IF Refused(s, e) THEN s
  ELSE CASE e.op = "addD" -> [s EXCEPT !.main = PAddD(@, e.a, e.b, e.c)]
    [] e.op = "addU" -> [s EXCEPT !.main = PAddU(@, e.a, e.b, e.c)]
    [] e.op = "geoD" -> [s EXCEPT !.main = PAddD(@, e.a, e.b, Geo(e.a, e.b))]
    [] e.op = "geoU" -> [s EXCEPT !.main = PAddU(@, e.a, e.b, Geo(e.a, e.b))]
    [] e.op = "auxD" -> [s EXCEPT !.aux = PAddD(@, e.a, e.b, e.c)]
    [] e.op = "auxU" -> [s EXCEPT !.aux = PAddU(@, e.a, e.b, e.c)]
    [] e.op = "borD" ->
         [s EXCEPT !.main = PAddD(@, e.a, e.b, PDist(s.aux, e.a, e.b))]
    [] e.op = "borU" ->
         [s EXCEPT !.main = PAddD(PAddD(@, e.a, e.b, PDist(s.aux, e.a, e.b)),
                                  e.b, e.a, PDist(s.aux, e.b, e.a))]
    [] e.op = "remD" -> [s EXCEPT !.main = PRemD(@, e.a, e.b)]
    [] e.op = "remU" -> [s EXCEPT !.main = PRemU(@, e.a, e.b)]
    [] OTHER -> s
\* borrowing the cost of an unreachable pair is outside the domain
Sensible(s, e) ==
  e.op \in {"borD", "borU"} /\ Has(s.aux, e.a) /\ Has(s.aux, e.b) =>
     PDist(s.aux, e.a, e.b) # NoPath /\ PDist(s.aux, e.b, e.a) # NoPath

Ixs(s, p) == [k \in DOMAIN p |-> Ix(s, p[k])]
AllKnown(s, p) == \A k \in DOMAIN p : Has(s, p[k])
PVerdict(s, e) ==
  LET m == s.main IN
  IF Refused(s, e)
  THEN IF e.x # "" THEN <<>> ELSE <<"C03", "a point that is not in the graph was accepted">>
  ELSE IF e.x # "" THEN <<"C03", "unexpected exception " \o e.x>>
  ELSE CASE e.op \in {"cost", "icost"} ->
              IF CostRight(m.g, Ix(m, e.a), Ix(m, e.b), e.r) THEN <<>>
              ELSE <<"C03", "cost between points is not the current minimum">>
         [] e.op = "path" ->
              IF AllKnown(m, e.r)
                 /\ PathRight(m.g, Ix(m, e.a), Ix(m, e.b), PDist(m, e.a, e.b), Ixs(m, e.r))
              THEN <<>> ELSE <<"C03", "path between points is not a current shortest path">>
         [] e.op = "all" ->
              IF (\A k \in DOMAIN e.r : AllKnown(m, e.r[k]))
                 /\ AllRight(m.g, Ix(m, e.a), Ix(m, e.b),
                             [k \in DOMAIN e.r |-> Ixs(m, e.r[k])])
              THEN <<>> ELSE <<"C03", "not exactly the simple paths between the points">>
         [] e.op = "index" ->
              IF e.r = Ix(m, e.a) THEN <<>> ELSE <<"C03", "node number of a point changed">>
         [] e.op = "node" ->
              IF e.r = m.pts[e.i + 1] THEN <<>> ELSE <<"C03", "node number names another point">>
         [] e.op = "nodes" ->
              IF e.r.n = Len(m.pts) /\ NoDup(e.r.pts) /\ Range(e.r.pts) = Range(m.pts)
                 /\ e.r.edges = Cardinality(Edges(m.g))
              THEN <<>> ELSE <<"C03", "the set of nodes is wrong">>
         [] e.op = "ecost" ->
              LET k == <<Ix(m, e.a), Ix(m, e.b)>> IN
              IF k \notin Edges(m.g) THEN IF e.r = NoPath THEN <<>>
                                          ELSE <<"C03", "cost of an edge that is not there">>
              ELSE IF e.r = m.g.w[k] \/ (e.r = m.g.w[k] + 1 /\ m.g.w[k] = Geo(e.a, e.b))
                   THEN <<>>
                   ELSE <<"C03", "edge cost is not the one given or the scaled distance">>
         [] OTHER -> <<>>
=============================================================================
