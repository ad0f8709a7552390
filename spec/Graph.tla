------------------------------- MODULE Graph -------------------------------
(* Weighted directed graph with shortest-path and path-enumeration queries.  *)
(* State of the abstract graph: g.nodes, the node numbers mentioned so far,  *)
(* and g.w, a function from the current edges <<i, j>> to their cost.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [nodes |-> {}, w |-> <<>>]
Edges(g) == DOMAIN g.w

\* ---- edits -----------------------------------------------------------------
AddD(g, i, j, c) ==
  [nodes |-> g.nodes \cup {i, j}, w |-> (<<i, j>> :> c) @@ g.w]
AddU(g, i, j, c) == AddD(AddD(g, i, j, c), j, i, c)
Restrict(f, D) == [x \in D |-> f[x]]
RemD(g, i, j) == [g EXCEPT !.w = Restrict(g.w, Edges(g) \ {<<i, j>>})]
RemU(g, i, j) == RemD(RemD(g, i, j), j, i)
Edit(g, e) ==
  CASE e.op = "addD" -> AddD(g, e.i, e.j, e.c)
    [] e.op = "addU" -> AddU(g, e.i, e.j, e.c)
    [] e.op = "remD" -> RemD(g, e.i, e.j)
    [] e.op = "remU" -> RemU(g, e.i, e.j)
    [] OTHER -> g

\* ---- meaning of the queries ------------------------------------------------
Succ(g, i) == {e[2] : e \in {x \in Edges(g) : x[1] = i}}
RECURSIVE SimpleFrom(_, _, _, _)
\* simple paths that continue from i (already on the path) to j avoiding Seen
SimpleFrom(g, i, j, Seen) ==
  IF i = j THEN {<<i>>}
  ELSE UNION {{<<i>> \o p : p \in SimpleFrom(g, k, j, Seen \cup {i})} :
              k \in Succ(g, i) \ (Seen \cup {i})}
SimplePaths(g, i, j) == SimpleFrom(g, i, j, {})
RECURSIVE PathCost(_, _)
PathCost(g, p) ==
  IF Len(p) < 2 THEN 0
  ELSE g.w[<<p[1], p[2]>>] + PathCost(g, Tail(p))
IsPath(g, p) == \A k \in 1..(Len(p) - 1) : <<p[k], p[k + 1]>> \in Edges(g)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
NoPath == -1
\* declarative: minimum over the simple paths (costs are non-negative)
MinCost(g, i, j) ==
  IF i = j THEN 0
  ELSE LET P == SimplePaths(g, i, j)
       IN IF P = {} THEN NoPath ELSE Min({PathCost(g, p) : p \in P})
\* the same by relaxation from one source, for larger graphs (checked equal to
\* MinCost by the invariant RelaxRight)
RECURSIVE Relax(_, _, _)
Relax(g, d, n) ==
  IF n = 0 THEN d
  ELSE LET d2 == [v \in g.nodes |->
             LET C == {d[v]} \cup {d[u] + g.w[<<u, v>>] :
                        u \in {x \in g.nodes : <<x, v>> \in Edges(g) /\ d[x] # NoPath}}
                 R == C \ {NoPath}
             IN IF R = {} THEN NoPath ELSE Min(R)]
       IN IF d2 = d THEN d ELSE Relax(g, d2, n - 1)
CostsFrom(g, i) ==
  Relax(g, [v \in g.nodes |-> IF v = i THEN 0 ELSE NoPath], Cardinality(g.nodes))
DistN(g, i, j) ==
  IF i = j THEN 0
  ELSE IF i \in g.nodes /\ j \in g.nodes THEN CostsFrom(g, i)[j] ELSE NoPath

\* ---- which answers are right -----------------------------------------------
Range(s) == {s[k] : k \in DOMAIN s}
NoDup(s) == Cardinality(Range(s)) = Len(s)
Known(g, e) == e.i \in g.nodes /\ e.j \in g.nodes
\* d: cost of the pair
PathRight(g, i, j, d, p) ==
  IF i = j \/ d = NoPath THEN p = <<>>
  ELSE /\ Len(p) >= 2 /\ p[1] = i /\ p[Len(p)] = j
       /\ IsPath(g, p) /\ PathCost(g, p) = d
CostRight(g, i, j, r) ==
  \/ r = DistN(g, i, j)
  \/ i = j /\ i \notin g.nodes /\ r = NoPath    \* a node never mentioned
TableDim(g, t) ==
  /\ \A k \in DOMAIN t : Len(t[k]) = Len(t)
  /\ \A n \in g.nodes : n < Len(t)
CostTableRight(g, t) ==
  /\ TableDim(g, t)
  /\ \A a \in 1..Len(t) :
       LET d == IF a - 1 \in g.nodes THEN CostsFrom(g, a - 1) ELSE <<>> IN
       \A b \in 1..Len(t) :
         IF a - 1 \in g.nodes /\ b - 1 \in g.nodes THEN t[a][b] = d[b - 1]
         ELSE a = b \/ t[a][b] = NoPath
PathTableRight(g, t) ==
  /\ TableDim(g, t)
  /\ \A a \in 1..Len(t) :
       LET d == IF a - 1 \in g.nodes THEN CostsFrom(g, a - 1) ELSE <<>> IN
       \A b \in 1..Len(t) :
         IF a - 1 \in g.nodes /\ b - 1 \in g.nodes
         THEN PathRight(g, a - 1, b - 1, d[b - 1], t[a][b])
         ELSE t[a][b] = <<>>
AllRight(g, i, j, r) ==
  /\ NoDup(r)
  /\ Range(r) = SimplePaths(g, i, j)
EdgesRight(g, r) ==
  /\ NoDup(r)
  /\ {<<x.i, x.j>> : x \in Range(r)} = Edges(g)
  /\ \A x \in Range(r) : <<x.i, x.j>> \in Edges(g) => x.c = g.w[<<x.i, x.j>>]

Verdict(g, e) ==
  IF e.x # "" THEN <<"*", "unexpected exception " \o e.x>>
  ELSE CASE e.op = "cost" ->
              IF CostRight(g, e.i, e.j, e.r) THEN <<>>
              ELSE <<"C01", "shortest-path cost is not the current minimum">>
         [] e.op = "path" ->
              IF PathRight(g, e.i, e.j, DistN(g, e.i, e.j), e.r) THEN <<>>
              ELSE <<"C01", "shortest path is not a current path of minimum cost">>
         [] e.op = "costs" ->
              IF CostTableRight(g, e.r) THEN <<>>
              ELSE <<"C01", "cost table disagrees with the graph">>
         [] e.op = "paths" ->
              IF PathTableRight(g, e.r) THEN <<>>
              ELSE <<"C01", "path table disagrees with the graph">>
         [] e.op = "all" ->
              IF AllRight(g, e.i, e.j, e.r) THEN <<>>
              ELSE <<"C02", "not exactly the simple paths">>
         [] e.op = "counts" ->
              IF e.r.edges = Cardinality(Edges(g)) /\ e.r.nodes = Cardinality(g.nodes)
              THEN <<>> ELSE <<"C02", "edge or node count is wrong">>
         [] e.op = "ecost" ->
              IF e.r = (IF <<e.i, e.j>> \in Edges(g) THEN g.w[<<e.i, e.j>>] ELSE NoPath)
              THEN <<>> ELSE <<"C02", "edge cost is wrong">>
         [] e.op = "succ" ->
              IF NoDup(e.r) /\ Range(e.r) = Succ(g, e.i)
              THEN <<>> ELSE <<"C02", "successors are wrong">>
         [] e.op = "edges" ->
              IF EdgesRight(g, e.r) THEN <<>> ELSE <<"C02", "edge map is wrong">>
         [] OTHER -> <<>>
=============================================================================
