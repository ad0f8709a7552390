------------------------------ MODULE GraphMC ------------------------------
(* The implementation's design: answers come from tables computed lazily by  *)
(* Floyd-Warshall and kept until an edit discards them.  Checked against the *)
(* meaning of the queries in Graph.tla, in every reachable state.            *)
(* Every transition of this state graph is also emitted as a test.           *)
EXTENDS Graph, Json
CONSTANTS N, Costs, KeepOnRemove, Focus
ASSUME KeepOnRemove \in BOOLEAN   \* TRUE plants the historical stale-cache fault

NodeSet == 0..(N - 1)
VARIABLES w,      \* current edges
          dist, next,  \* cached tables, or <<>> when not computed
          paths,  \* cached path table, or <<>>
          hist    \* operations so far (for emission only; hidden by the view)
vars == <<w, dist, next, paths, hist>>
view == <<w, dist, next, paths>>

g == [nodes |-> NodeSet, w |-> w]

\* ---- Floyd-Warshall as the code does it, one relaxation at a time
Inf == 1000000
RECURSIVE FW(_, _, _, _, _)
FW(d, x, k, i, j) ==
  IF k = N THEN [d |-> d, x |-> x]
  ELSE LET nk == IF i = N - 1 /\ j = N - 1 THEN k + 1 ELSE k
           ni == IF j = N - 1 THEN (i + 1) % N ELSE i
           nj == (j + 1) % N
       IN IF d[i][k] < Inf /\ d[k][j] < Inf /\ d[i][j] > d[i][k] + d[k][j]
          THEN FW([d EXCEPT ![i][j] = d[i][k] + d[k][j]],
                  [x EXCEPT ![i][j] = x[i][k]], nk, ni, nj)
          ELSE FW(d, x, nk, ni, nj)
Tables ==
  LET d0 == [i \in NodeSet |-> [j \in NodeSet |->
              IF i = j THEN 0 ELSE IF <<i, j>> \in DOMAIN w THEN w[<<i, j>>] ELSE Inf]]
      x0 == [i \in NodeSet |-> [j \in NodeSet |->
              IF <<i, j>> \in DOMAIN w THEN j ELSE -1]]
  IN FW(d0, x0, 0, 0, 0)
RECURSIVE Walk(_, _, _)
Walk(x, i, j) == IF i = j THEN <<i>> ELSE <<i>> \o Walk(x, x[i][j], j)
PathFrom(x, i, j) == IF i # j /\ x[i][j] # -1 THEN Walk(x, i, j) ELSE <<>>

Computed == dist # <<>>
Log(o) == hist' = Append(hist, o)
Invalidate == dist' = <<>> /\ next' = <<>> /\ paths' = <<>>
Keep == UNCHANGED <<dist, next, paths>>
Fill == IF Computed THEN UNCHANGED <<dist, next>>
        ELSE LET t == Tables IN dist' = t.d /\ next' = t.x

AddEdge(i, j, c) ==
  /\ w' = (<<i, j>> :> c) @@ w /\ Invalidate
  /\ Log([op |-> "addD", i |-> i, j |-> j, c |-> c])
AddBoth(i, j, c) ==
  /\ i < j
  /\ w' = (<<i, j>> :> c) @@ ((<<j, i>> :> c) @@ w) /\ Invalidate
  /\ Log([op |-> "addU", i |-> i, j |-> j, c |-> c])
Remove(i, j) ==
  /\ <<i, j>> \in DOMAIN w
  /\ w' = Restrict(w, DOMAIN w \ {<<i, j>>})
  /\ IF KeepOnRemove THEN Keep ELSE Invalidate
  /\ Log([op |-> "remD", i |-> i, j |-> j])
RemoveBoth(i, j) ==
  /\ i < j
  /\ {<<i, j>>, <<j, i>>} \cap DOMAIN w # {}
  /\ w' = Restrict(w, DOMAIN w \ {<<i, j>>, <<j, i>>})
  /\ IF KeepOnRemove THEN Keep ELSE Invalidate
  /\ Log([op |-> "remU", i |-> i, j |-> j])
QueryCosts == Fill /\ UNCHANGED <<w, paths>> /\ Log([op |-> "costs"])
QueryPaths ==
  /\ Fill /\ UNCHANGED w
  /\ paths' = IF paths # <<>> THEN paths
              ELSE [i \in NodeSet |-> [j \in NodeSet |-> PathFrom(next', i, j)]]
  /\ Log([op |-> "paths"])

Init == w = <<>> /\ dist = <<>> /\ next = <<>> /\ paths = <<>> /\ hist = <<>>
Next ==
  \/ \E i, j \in NodeSet : i # j /\ (\E c \in Costs : AddEdge(i, j, c))
  \/ \E i, j \in NodeSet : \E c \in Costs : AddBoth(i, j, c)
  \/ \E i, j \in NodeSet : Remove(i, j) \/ RemoveBoth(i, j)
  \/ QueryCosts \/ QueryPaths
Spec == Init /\ [][Next]_vars

\* ---- properties
Answer(d) == IF d >= Inf THEN NoPath ELSE d
CostsFresh ==
  Computed => \A i, j \in NodeSet : Answer(dist[i][j]) = MinCost(g, i, j)
PathsFresh ==
  Computed => \A i, j \in NodeSet :
                PathRight(g, i, j, MinCost(g, i, j), PathFrom(next, i, j))
TablesFresh ==
  paths # <<>> => \A i, j \in NodeSet :
                PathRight(g, i, j, MinCost(g, i, j), paths[i][j])
RelaxRight ==
  \A i, j \in NodeSet : MinCost(g, i, j) = DistN(g, i, j)
Triangle ==
  \A i, j, k \in NodeSet :
    LET a == MinCost(g, i, j) b == MinCost(g, j, k) IN
    a # NoPath /\ b # NoPath =>
      MinCost(g, i, k) # NoPath /\ MinCost(g, i, k) <= a + b

\* ---- emission: one test per transition, followed by probes of every query
Pairs == [k \in 1..(N * N) |-> <<(k - 1) \div N, (k - 1) % N>>]
On(op) == [k \in 1..(N * N) |-> [op |-> op, i |-> Pairs[k][1], j |-> Pairs[k][2]]]
SuccOps == [k \in 1..N |-> [op |-> "succ", i |-> k - 1]]
Probe ==
  IF Focus = "C01" THEN On("cost") \o On("path") \o <<[op |-> "paths"], [op |-> "costs"]>>
  ELSE On("all") \o SuccOps \o On("ecost") \o <<[op |-> "edges"], [op |-> "counts"]>>
Emit == PrintT(ToJson([ops |-> hist' \o Probe]))
=============================================================================
