----------------------------- MODULE PathSeqSim ----------------------------
(* Random histories of two paths.                                             *)
EXTENDS PathSeq
CONSTANTS Depth
VARIABLES P, hist
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
C == R(-200..200)
Vel == R({1, 2, 4, 8})
Steps(u) == IF u[3] = 1 THEN R(1..40) ELSE 5 * R(1..12)
Hd == R(Heads)
AState == LET u == Hd IN <<C, C, R({0, 0, 0, 3, 1234567}), u, R({0, 1, 2, 3, 5, 7, 10, 30, 55}), R({1, 1, 1, -1}), R(1..3), Vel>>
RECURSIVE Walk(_)
Walk(n) == IF n = 0 THEN <<>> ELSE LET u == Hd IN Append(Walk(n - 1), <<u, Steps(u)>>)
\* a continuous drive of n sections; straight keeps heading and sense
RECURSIVE Chain(_, _, _, _, _)
Chain(n, straight, x, u, b) ==
  IF n = 0 THEN <<>>
  ELSE LET u2 == IF straight THEN u ELSE Hd b2 == IF straight THEN b ELSE R({1, 1, -1}) l == R({0, 1, 2}) * u2[3] + u2[3] * R({0, 1, 3, 8}) IN
       << <<x[1], x[2], 0, u2, l, b2, R({1, 1, 2, 3}), R({2, 2, 4})>> >> \o
       Chain(n - 1, straight, <<x[1] + b2 * ((u2[1] * l) \div u2[3]), x[2] + b2 * ((u2[2] * l) \div u2[3])>>, u, b)
AChain == Chain(IF R(1..10) = 1 THEN R(10..60) ELSE R(2..6), R(1..2) = 1, <<C, C>>, Hd, R({1, 1, -1}))
Names == <<"add", "adds", "set", "setall", "chain", "chain", "chain", "edit", "swath", "swath", "swath", "join", "join", "selfjoin", "copy", "file", "file", "uneven", "move", "rotate", "rotate", "mirx", "miry",
           "dir", "type", "type", "reduce", "reduce", "info", "info", "info", "info", "at", "at", "at", "cut", "cut", "cut", "populate", "populate", "populate", "discretize", "discretize", "end">>
None == [op |-> "info", a |-> 1]
Flat(p) == \A i \in 1..Len(p) : p[i][3] = 0
Small(p) == Len(p) <= 66 /\ \A i \in 1..Len(p) : Abs(p[i][1]) < 20000 /\ Abs(p[i][2]) < 20000
\* no ties: no distance equal to the bound, no half steps
NoTie(p, d) == \A i, j \in 1..Len(p) : (p[i][1] - p[j][1]) * (p[i][1] - p[j][1]) + (p[i][2] - p[j][2]) * (p[i][2] - p[j][2]) # d * d
NoHalf(p, d) == \A i \in 1..Len(p) : (2 * p[i][5]) % (2 * d) # d
\* as many steps as the comparison's products leave room for
Room(p) == LET far == {Abs(p[i][c]) : i \in 1..Len(p), c \in 1..2} \cup {0} IN 400000 \div ((CHOOSE m \in far : \A x \in far : x <= m) + Total(p) + 10)
Pick ==
  LET a == R(1..2) b == R(1..2) o == Names[R(1..Len(Names))] n == Len(P[a]) IN
  CASE o = "info" -> [op |-> o, a |-> a]
    [] ~Small(P[a]) \/ ~Small(P[b]) -> [op |-> "setall", a |-> IF Small(P[a]) THEN b ELSE a, v |-> <<>>]
    [] o \in {"add", "adds"} -> [op |-> o, a |-> a, s |-> AState]
    [] o = "set" -> IF n = 0 THEN None ELSE [op |-> o, a |-> a, i |-> R(1..n), s |-> AState, how |-> R({"set", "ref", "index", "states"})]
    [] o = "setall" -> [op |-> o, a |-> a, v |-> IF R(1..3) = 1 THEN <<>> ELSE <<AState, AState, AState>>]
    [] o = "chain" -> [op |-> "setall", a |-> a, v |-> AChain]
    [] o = "edit" -> [op |-> o, a |-> a, v |-> MapP(P[a], LAMBDA s : [s EXCEPT ![8] = IF s[8] = 8 THEN 1 ELSE 2 * s[8]])]
    [] o = "swath" -> [op |-> o, a |-> a, p |-> <<C, C>>, steps |-> Walk(R(0..4)), v |-> Vel]
    [] o = "join" -> [op |-> o, a |-> a, b |-> 3 - a]
    [] o = "selfjoin" -> [op |-> "join", a |-> a, b |-> a]
    [] o = "copy" -> [op |-> o, a |-> a, b |-> b, how |-> R({"ctor", "assign", "states"})]
    [] o = "file" -> [op |-> o, a |-> a, b |-> b, prec |-> IF \E i \in 1..Len(P[b]) : \E c \in 1..3 : Abs(P[b][i][c]) > 99999 THEN R({12, 15, 17}) ELSE R({0, 12, 15, 17})]
    [] o = "uneven" -> [op |-> o, n |-> R(1..997), m |-> R(1..400000), prec |-> R({4, 6, 9, 12, 15, 17})]
    [] o = "move" -> [op |-> o, a |-> a, p |-> <<C, C, R({0, 0, 2})>>]
    [] o = "rotate" -> IF Flat(P[a]) THEN [op |-> o, a |-> a, p |-> <<C, C>>, k |-> R(-3..5)] ELSE None
    [] o \in {"mirx", "miry"} -> [op |-> o, a |-> a]
    [] o = "dir" -> [op |-> o, a |-> a, i |-> R(0..n), v |-> R({1, -1})]
    [] o = "type" -> [op |-> o, a |-> a, i |-> R(0..n), v |-> R({1, 2})]
    [] o = "reduce" -> LET d == R({1, 2, 4, 7, 9, 21, 40}) IN IF NoTie(P[a], d) THEN [op |-> o, a |-> a, d |-> d] ELSE None
    [] o = "at" -> [op |-> o, a |-> a, t |-> LET T == K * Total(P[a]) IN <<T, T + 5000, -700, 0, K * Cum(P[a], R(0..n)), K * Cum(P[a], R(0..n)) + R(-900..900), R(0..(T + 1)), R(0..(T + 1))>>]
    [] o = "cut" -> LET d == R({1, 2, 3, 7, 10, 50, 300}) IN IF NoHalf(P[a], d) THEN [op |-> o, a |-> a, d |-> d] ELSE None
    [] o = "populate" -> IF Flat(P[a]) THEN [op |-> o, a |-> a, n |-> R({n2 \in {0, 1, 2, 3, 7, 20, 60, Max2(1, Total(P[a])), 2 * Max2(1, Total(P[a]))} : n2 <= Room(P[a])})] ELSE None
    [] o = "discretize" -> IF Flat(P[a]) THEN [op |-> o, a |-> a, d |-> R({1, 2, 5, 13, 40, 3000})] ELSE None
    [] o = "end" -> [op |-> o, s |-> AState]
    [] OTHER -> None
Init == P = P0 /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} : P' = PDo(P, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<P, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
