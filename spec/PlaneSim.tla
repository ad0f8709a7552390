------------------------------ MODULE PlaneSim ------------------------------
(* Random questions about angles, vectors and moves. *)
EXTENDS Plane
CONSTANTS Depth
VARIABLES hist
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
Base == <<<<1, 0, 1>>, <<3, 4, 5>>, <<5, 12, 13>>, <<8, 15, 17>>, <<7, 24, 25>>, <<4, 3, 5>>, <<12, 5, 13>>, <<24, 7, 25>>>>
Quarter(d) == <<-d[2], d[1], d[3]>>
\* a direction in any quadrant
Dir == LET d == Base[R(1..8)] k == R(0..3) IN
  CASE k = 0 -> d [] k = 1 -> Quarter(d) [] k = 2 -> Quarter(Quarter(d)) [] OTHER -> Quarter(Quarter(Quarter(d)))
Deg == CASE R(1..4) = 1 -> 90 * R(-9..9) [] R(1..3) = 1 -> 45 * R(-20..20) [] R(1..3) = 1 -> 180 * R(-4..4) + R(-2..2) [] OTHER -> R(-1500..1500)
Far == IF R(1..3) = 1 THEN Deg ELSE R(-20000..20000)
C == R(-10..10)
Pt2 == <<C, C, 0>>
Pt == <<C, C, R({0, 0, 3, -2})>>
RECURSIVE Many(_, _)
\* which = 0: any points; d > 0: points c + d * small
Many(n, c) == IF n = 0 THEN <<>> ELSE <<IF c = <<>> THEN Pt2 ELSE LET s == R(-4..4) t == R(-4..4) IN <<c[1] + c[4] * s, c[2] + c[4] * t, R({0, 0, 1, -2})>>>> \o Many(n - 1, c)
Flat(v) == [i \in 1..Len(v) |-> <<v[i][1], v[i][2], 0>>]
Close(v) == IF v[1] = v[Len(v)] THEN v ELSE Append(v, v[1])
\* a shape of kind k around c
Shape(k, c) ==
  LET ring == Close(Flat(Many(R(3..5), c))) other == Close(Flat(Many(R(3..4), c))) IN
  CASE k = "pt" -> Many(1, c)[1]
    [] k \in {"line", "mp", "pts"} -> Many(R(1..5), c)
    [] k = "ring" -> IF R(1..2) = 1 THEN ring ELSE Flat(Many(R(3..5), c))
    [] k = "ml" -> IF R(1..2) = 1 THEN <<Many(R(1..4), c)>> ELSE <<Many(2, c), Many(R(1..4), c)>>
    [] k = "cell" -> IF R(1..2) = 1 THEN <<ring>> ELSE <<ring, other>>
    [] OTHER -> IF R(1..2) = 1 THEN << <<ring>> >> ELSE << <<other>>, <<ring, other>> >>
\* points in the eight directions
RECURSIVE Walk(_, _)
Walk(n, p) == IF n = 0 THEN <<p>> ELSE
  LET s == R({<<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>>}) f == R(1..9) IN
  <<p>> \o Walk(n - 1, <<p[1] + f * s[1], p[2] + f * s[2], 0>>)
RECURSIVE AngList(_)
AngList(n) == IF n = 0 THEN <<>> ELSE <<Deg>> \o AngList(n - 1)
Kinds == {"pt", "line", "ring", "mp", "pts", "ml", "cell", "cells"}
Ops == {"mod", "diff", "avg", "cont", "conts", "vec", "dir", "between", "corner", "polar", "turn", "turn", "shift", "side", "cross", "foot", "foot3",
        "nearest", "segs", "lines", "vertex", "vertexodd", "ends"}
Pick ==
  LET o == R(Ops) IN
  CASE o = "mod" -> [op |-> o, a |-> Far]
    [] o = "diff" -> LET a == Deg IN [op |-> o, a |-> a, b |-> IF R(1..4) = 1 THEN a + 180 * R(-5..5) ELSE Deg]
    [] o = "avg" -> LET a == Deg IN [op |-> o, a |-> a, b |-> IF R(1..4) = 1 THEN a + 180 * R(-5..5) + R(-2..2) ELSE Deg]
    [] o = "cont" -> LET a == Far IN [op |-> o, a |-> a, b |-> IF R(1..4) = 1 THEN a + 180 * R(-5..5) + R({-1, 1}) ELSE Deg]
    [] o = "conts" -> [op |-> o, v |-> AngList(R(0..7))]
    [] o = "vec" -> LET u == Pt IN [op |-> o, u |-> u, v |-> IF R(1..3) = 1 THEN <<u[1] + R({0, 0, 1, -1}), u[2] + R({0, 0, 1, -1}), u[3] + R({0, 0, 1, -1})>> ELSE Pt, f |-> R({-3, -1, 2, 5, 8})]
    [] o = "dir" -> [op |-> o, d |-> Dir, f |-> R(1..9)]
    [] o = "between" -> [op |-> o, d |-> Dir, g |-> Dir, f |-> R(1..9)]
    [] o = "corner" -> [op |-> o, p |-> Pt2, d |-> Dir, g |-> Dir, f |-> R(1..5)]
    [] o = "polar" -> [op |-> o, p |-> Pt2, d |-> Dir, f |-> R(-4..9), w |-> R(-3..3)]
    [] o = "turn" -> LET d == Dir c == Pt2 k == R(Kinds) IN [op |-> o, k |-> k, c |-> c, d |-> d, w |-> R(-2..2), v |-> Shape(k, <<c[1], c[2], 0, d[3]>>)]
    [] o = "shift" -> LET k == R(Kinds) IN [op |-> o, k |-> k, v |-> Shape(k, <<0, 0, 0, 3>>), c |-> Pt2, how |-> R({"add", "sub", "rsub"})]
    [] o = "side" -> LET d == Dir s == Pt2 IN [op |-> o, p |-> Pt2, s |-> s, t |-> Add(s, <<d[1], d[2], 0>>), h |-> d[3]]
    [] o = "cross" -> LET s == Pt2 t == Pt2 u == Pt2 IN
         [op |-> o, s |-> s, t |-> t, u |-> u, w |-> IF R(1..6) = 1 THEN Add(u, Mul(Sub(t, s), R({-1, 1}))) ELSE Pt2]
    [] o = "foot" -> LET s == Pt2 IN [op |-> o, p |-> Pt2, s |-> s, t |-> IF R(1..6) = 1 THEN s ELSE Pt2]
    [] o = "foot3" -> LET s == <<C, C, C>> IN [op |-> o, p |-> <<C, C, C>>, s |-> s, t |-> IF R(1..8) = 1 THEN s ELSE <<C, C, C>>]
    [] o = "nearest" -> LET k == R({"line", "ring"}) IN
         [op |-> o, k |-> k, p |-> Pt2, v |-> IF k = "ring" THEN Close(Many(R(3..6), <<>>)) ELSE Many(R(1..6), <<>>)]
    [] o = "segs" -> LET k == R({"line", "ring"}) IN [op |-> o, k |-> k, v |-> Many(R({0, 1, 2, 3, 4, 5}), <<>>)]
    [] o = "lines" -> LET k == R({"line", "ml", "cell", "cells"}) IN [op |-> o, k |-> k, v |-> Shape(k, <<0, 0, 0, 2>>)]
    [] o = "vertex" -> LET n == R(1..6) IN [op |-> "vertex", v |-> Walk(n, Pt2), i |-> R(0..(n + 2))]
    [] o = "vertexodd" -> [op |-> "vertex", v |-> IF R(1..2) = 1 THEN <<>> ELSE Walk(0, Pt2), i |-> R(1..2)]
    [] OTHER -> LET d == Dir g == Dir p == Pt2 m == Many(R(0..2), <<>>) IN
         [op |-> "ends", d |-> d, g |-> g, v |-> <<p, Add(p, <<d[1], d[2], 0>>)>> \o m \o <<Pt2>>]
Fixed(e) == IF e.op # "ends" THEN e ELSE
  LET l == e.v[Len(e.v)] IN [e EXCEPT !.v = Append(@, Add(l, <<e.g[1], e.g[2], 0>>))]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} : hist' = Append(hist, Fixed(o))
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
