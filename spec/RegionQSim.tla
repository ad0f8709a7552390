----------------------------- MODULE RegionQSim -----------------------------
(* Random queries about random regions: ordinary points, vertices, points on  *)
(* borders; lines and rays along borders and through corners too.             *)
EXTENDS RegionShapes
CONSTANTS Depth
VARIABLES S
AnEdge(cs) == LET c == cs[R(1..Len(cs))] r == c[R(1..Len(c))] i == R(1..(Len(r) - 1)) IN <<r[i], r[i + 1]>>
\* a point of the border, in eighths
Mid(e) == LET k == R(0..8) IN <<k * e[1][1] + (8 - k) * e[2][1], k * e[1][2] + (8 - k) * e[2][2]>>
AnyPt(cs) == LET k == R(1..8) e == AnEdge(cs) IN
  CASE k <= 3 -> <<R(-16..(8 * 25)), R(-16..(8 * 25))>>
    [] k = 4 -> <<8 * R(0..24), 8 * R(0..24)>>
    [] k = 5 -> <<8 * e[1][1], 8 * e[1][2]>>
    [] k = 6 -> Mid(e)
    [] k = 7 -> <<R((8 * 24)..(8 * 50)), R(0..(8 * 24))>>
    [] OTHER -> LET m == Mid(e) IN <<m[1] + R(-3..3), m[2] + R(-3..3)>>
ALine(cs) == LET k == R(1..6) e == AnEdge(cs) p == AnyPt(cs) q == AnyPt(cs) IN
  CASE k = 1 -> << <<R(0..200), R(-40..-9)>>, <<R(0..200), R(250..280)>> >>
    [] k = 2 -> << <<R(-40..-9), R(0..200)>>, <<R(515..550), R(0..200)>> >>
    [] k = 3 -> LET x == R(0..200) IN << <<x, -20>>, <<x, 260>> >>
    [] k = 4 -> << <<8 * (2 * e[1][1] - e[2][1]), 8 * (2 * e[1][2] - e[2][2])>>, <<8 * (2 * e[2][1] - e[1][1]), 8 * (2 * e[2][2] - e[1][2])>> >>
    [] OTHER -> IF p = q THEN <<p, <<p[1] + 9, p[2] - 40>> >> ELSE <<p, q>>
\* several lines: none of them along a border, where GEOS may answer parts that
\* are outside when another line crosses that border nearby (a known finding)
RunsAlong(l, cs) == \E i \in 1..Len(cs) : \E j \in 1..Len(cs[i]) : \E k \in 1..(Len(cs[i][j]) - 1) :
  LET a == cs[i][j][k] b == cs[i][j][k + 1] IN
  Cross(l[1], l[2], <<8 * a[1], 8 * a[2]>>) = 0 /\ Cross(l[1], l[2], <<8 * b[1], 8 * b[2]>>) = 0
Apart(ls, cs) == IF Len(ls) > 1 /\ \E i \in 1..Len(ls) : RunsAlong(ls[i], cs) THEN <<ls[1]>> ELSE ls
Lines(cs) == LET n == R(1..3) IN IF n = 1 THEN <<ALine(cs)>> ELSE Apart(IF n = 2 THEN <<ALine(cs), ALine(cs)>> ELSE <<ALine(cs), ALine(cs), ALine(cs)>>, cs)
Known == [op |-> "linesof",
  v |-> << << << <<20, 3>>, <<5, 4>>, <<7, 15>>, <<0, 18>>, <<7, 22>>, <<18, 21>>, <<14, 16>>, <<15, 13>>, <<20, 3>> >>,
              << <<11, 9>>, <<9, 7>>, <<11, 5>>, <<13, 7>>, <<11, 9>> >>, << <<11, 13>>, <<9, 15>>, <<11, 17>>, <<13, 15>>, <<11, 13>> >> >> >>,
  ls |-> << << <<-26, 161>>, <<518, 53>> >>, << <<-56, 112>>, <<112, 208>> >> >>]
Cuts(cs) == LET k == R(1..4) l == ALine(cs) m == ALine(cs) IN
  IF k <= 2 THEN <<l>> ELSE IF k = 3 THEN <<l, m>> ELSE << <<l[1], l[2], AnyPt(cs)>>, m>>
Dirs == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<-1, 1>>, <<1, -1>>, <<-2, -1>>, <<3, 4>>, <<-4, 3>>, <<4, -3>>, <<-3, -4>>, <<1, 2>>, <<5, -1>>}
RECURSIVE Pts(_)
Pts(n) == IF n = 0 THEN <<>> ELSE << <<IF R(1..2) = 1 THEN R(-8..(8 * 26)) ELSE R((8 * 10)..(8 * 45)), R(-8..(8 * 26))>> >> \o Pts(n - 1)
Make(a) == [op |-> "set", a |-> a, v |-> IF a = 1 THEN ARegion ELSE Away, how |-> R({"rings", "open", "wkt"})]
Names == <<"point", "point", "point", "line", "line", "ray", "ray", "info", "bool", "split">>
Pick ==
  IF Len(hist) = 0 THEN [f16 |-> R({16, 16, 1, 256}), off |-> R({<<0, 0>>, <<0, 0>>, <<-3000, 70000>>, <<500000, 4000000>>})] @@ [op |-> "place"] ELSE
  IF Len(hist) = 1 THEN Make(1) ELSE IF Len(hist) = 2 THEN Make(2) ELSE
  IF R(1..400) = 1 THEN Known ELSE
  LET o == Names[R(1..Len(Names))] a == R(1..2) cs == S[a] IN
  CASE o = "point" -> [op |-> o, a |-> a, p |-> AnyPt(cs)]
    [] o = "line" -> [op |-> o, a |-> a, ls |-> Lines(cs)]
    [] o = "ray" -> [op |-> o, a |-> a, p |-> AnyPt(cs), d |-> R(Dirs)]
    [] o = "info" -> [op |-> o, a |-> a]
    [] o = "bool" -> [op |-> o, ps |-> Pts(12)]
    [] OTHER -> [op |-> o, a |-> a, ls |-> Cuts(cs), ps |-> Pts(14)]
Init == S = << <<>>, <<>> >> /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} :
          /\ S' = IF o.op = "set" THEN [S EXCEPT ![o.a] = o.v] ELSE S
          /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<S, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
