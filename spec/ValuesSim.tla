----------------------------- MODULE ValuesSim -----------------------------
(* Random histories over all kinds.  The state is tracked so that only       *)
(* non-empty children are stored and coordinates stay small.                  *)
EXTENDS Values
CONSTANTS Depth
VARIABLES S, hist
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
C == R(-6..6)
Pt == IF R(1..3) = 1 THEN <<C, C, R(-2..2)>> ELSE <<C, C, 0>>
RECURSIVE Pts(_)
Pts(n) == IF n = 0 THEN <<>> ELSE <<Pt>> \o Pts(n - 1)
Flat0 == LET v == Pts(R(3..5)) IN [i \in 1..Len(v) |-> <<v[i][1], v[i][2], 0>>]
FlatRing == Closed(Flat0)
\* OGR keeps no repeated empty parts; rings have at least four points
\* many parts, now and then
Many == R(1..6) = 1
RECURSIVE Lines(_)
Lines(n) == IF n = 0 THEN <<>> ELSE <<Pts(R(1..3))>> \o Lines(n - 1)
RECURSIVE Rings(_)
Rings(n) == IF n = 0 THEN <<>> ELSE <<Closed(LET v == Pts(R(3..4)) IN [i \in 1..Len(v) |-> <<v[i][1], v[i][2], 0>>])>> \o Rings(n - 1)
Big(k) == CASE k \in {"line", "mp"} -> Pts(R(6..8)) [] k = "ring" -> LET v == Pts(R(6..8)) IN [i \in 1..Len(v) |-> <<v[i][1], v[i][2], 0>>]
  [] k = "ml" -> Lines(R(5..7)) [] k = "cell" -> Rings(R(4..5)) [] k = "cells" -> [i \in 1..R(3..5) |-> Rings(R(1..2))]
Val(k) == IF Many THEN Big(k) ELSE CASE k \in {"line", "mp"} -> Pts(R(1..4))
  [] k = "ring" -> Flat0
  [] k = "ml" -> IF R(1..2) = 1 THEN <<Pts(R(1..3))>> ELSE <<Pts(2), Pts(R(1..3))>>
  [] k = "cell" -> IF R(1..2) = 1 THEN <<FlatRing>> ELSE <<FlatRing, FlatRing>>
  [] k = "cells" -> IF R(1..2) = 1 THEN << <<FlatRing>> >> ELSE << <<FlatRing, FlatRing>>, <<FlatRing>> >>
\* something made of geometries
RECURSIVE Drives(_)
Drives(n) == IF n = 0 THEN <<>> ELSE << [p |-> LET v == Pts(R(2..4)) IN [i \in 1..Len(v) |-> <<v[i][1], v[i][2], 0>>],
     id |-> R(0..9), w |-> R(1..5), t |-> R(0..1), d |-> R({TRUE, FALSE})] >> \o Drives(n - 1)
Group(w) == CASE w = "swath" -> Drives(1) [] w = "swaths" -> Drives(R(0..4)) [] OTHER -> Drives(IF R(1..4) = 1 THEN 0 ELSE R(1..3))
Made(w) ==
  LET n == IF w \in {"strip", "field"} THEN 0 ELSE IF w \in {"swath", "swaths"} THEN 1 ELSE R(0..3) IN
  [g |-> [i \in 1..n |-> Group(w)],
   conn |-> IF w # "route" THEN <<>> ELSE [i \in 1..(IF n = 0 THEN 0 ELSE n + R(0..1)) |-> IF R(1..4) = 1 THEN <<>> ELSE LET v == Pts(R(1..3)) IN [k \in 1..Len(v) |-> v[k]]],
   area |-> CASE w = "strip" -> <<Val("cell")>> [] w = "field" -> Val("cells") [] OTHER -> <<>>]
Twin(w) == [op |-> "twin", w |-> w, made |-> TLCEval(Made(w)), who |-> R({"orig", "twin"}), how |-> R({"move", "move", "rev"}), by |-> <<R(1..5), R(-5..5), 0>>, f |-> R({2, 3, -1})]
Filled(k) == {i \in 1..2 : S[k][i] # <<>>}
Names == <<"mk", "mk", "mk", "mk", "mk", "clone", "clone", "clone", "wkt", "add", "add", "add", "set", "set", "load", "load", "load", "load", "scale", "scale", "spoil", "spoil", "shift",
           "rev", "close", "edit", "addall", "addring", "toline", "eq", "eq", "odd", "twin", "twin", "info", "info", "reads", "reads", "borders",
           "pset", "pset", "passign", "pmove", "pmovector", "pcopy", "psetp", "pswap", "psort", "prot", "padd", "psub">>
None == [op |-> "prot"]
Small == \A k \in Kinds : \A i \in 1..2 : \A p \in Points(k, S[k][i]) : \A c \in 1..3 : p[c] \in -500..500
\* whether a ring with a height step closes is not defined: keep rings flat
Kid(k) == IF k = "ring" THEN LET f == {i \in 1..3 : S.pt[i][3] = 0} IN (IF f = {} \/ \E p \in Points(k, S.ring[1]) \cup Points(k, S.ring[2]) : p[3] # 0 THEN 0 ELSE R(f))
          ELSE IF k \in PtKinds THEN R(1..3) ELSE LET f == Filled(Child(k)) IN IF f = {} THEN 0 ELSE R(f)
Pick ==
  LET o == Names[R(1..Len(Names))] k == R(Kinds) a == R(1..2) b == R(1..2) n == Len(S[k][a]) IN
  CASE o = "mk" -> LET q == R(Kinds) IN [op |-> o, k |-> q, a |-> a, v |-> Val(q), how |-> R({"vector", "add"})]
    [] o \in {"clone", "eq"} -> [op |-> o, k |-> k, a |-> a, b |-> b]
    [] o = "wkt" -> IF S[k][b] = <<>> THEN None ELSE [op |-> o, k |-> k, a |-> a, b |-> b]
    [] o = "add" -> LET c == Kid(k) IN IF c = 0 \/ n > 8 THEN None ELSE [op |-> o, k |-> k, a |-> a, c |-> c]
    [] o = "set" -> LET c == Kid(k) IN IF c = 0 \/ n > 8 THEN None ELSE [op |-> o, k |-> k, a |-> a, i |-> R(1..(n + 1)), c |-> c]
    [] o = "load" -> [op |-> o, k |-> k, a |-> a, i |-> IF R(1..5) = 1 THEN R({0, n + 1, n + 2}) ELSE R(0..n),
                       c |-> R(IF k \in PtKinds THEN 1..3 ELSE 1..2), via |-> R({"const", "get", "at", "index"})]
    [] o = "spoil" -> [op |-> o, k |-> k, a |-> a, i |-> R(0..n), via |-> R({"const", "get"})]
    [] o = "scale" -> IF Small THEN [op |-> o, k |-> k, a |-> a, f |-> R({-1, 2, 3, 0})] ELSE [op |-> o, k |-> k, a |-> a, f |-> -1]
    [] o = "shift" -> IF Small THEN [op |-> o, k |-> k, a |-> a, b |-> b, c |-> R(1..3), how |-> R({"add", "sub", "rsub"})] ELSE None
    [] o = "rev" -> LET q == R({"line", "ring"}) IN IF S[q][a] = <<>> THEN None ELSE [op |-> o, k |-> q, a |-> a]
    [] o = "close" -> [op |-> o, a |-> a]
    [] o = "edit" -> IF Small THEN [op |-> o, k |-> R(PtKinds), a |-> a, d |-> <<R(-3..3), R(-3..3), R(-1..1)>>] ELSE None
    [] o = "addall" -> LET q == R({"mp", "ml"}) IN IF Len(S[q][a]) > 6 THEN None ELSE [op |-> o, k |-> q, a |-> a, b |-> 3 - a]
    [] o = "addring" -> IF S.cells[a] = <<>> \/ Filled("ring") = {} THEN None
                        ELSE [op |-> o, a |-> a, i |-> R(1..Len(S.cells[a])), c |-> R(Filled("ring"))]
    [] o = "toline" -> [op |-> o, a |-> a, b |-> b]
    [] o = "twin" -> Twin(R({"swath", "swaths", "groups", "route", "strip", "field"}))
    [] o = "odd" -> [op |-> o, k |-> k, n |-> R(1..997), m |-> R(1..400000)]
    [] o = "info" -> [op |-> o, k |-> k, a |-> a]
    [] o = "reads" -> [op |-> o, k |-> k, a |-> a, i |-> IF R(1..4) = 1 THEN R({0, n + 1, n + 2}) ELSE R(0..n)]
    [] o = "borders" -> [op |-> o, a |-> a, i |-> R(0..(Len(S.cells[a]) + 1)), j |-> R(0..3)]
    [] o = "pset" -> [op |-> o, a |-> R(1..3), v |-> Pt]
    [] o \in {"passign", "pmove", "pmovector", "pcopy", "psetp", "pswap"} -> [op |-> o, a |-> R(1..3), b |-> R(1..3)]
    [] o \in {"padd", "psub"} -> IF \A i \in 1..3 : \A c \in 1..3 : S.pt[i][c] \in -500..500
                                THEN [op |-> o, a |-> R(1..3), b |-> R(1..3), c |-> R(1..3)] ELSE None
    [] OTHER -> [op |-> o]
Init == S = Start0 /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} :
          /\ S' = VDo(S, o)
          /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<S, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
