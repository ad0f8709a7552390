--------------------------- MODULE ObjectivesSim ----------------------------
(* Random rectilinear fields, swaths, groups and routes for the objectives.   *)
EXTENDS RectShapes
CONSTANTS Depth
\* swaths [p, h]; p has two points
ASw(k, x, y, l, h) == CASE k = 1 -> [p |-> << <<x, y>>, <<x + l, y>> >>, h |-> h]
  [] k = 2 -> [p |-> << <<x + l, y>>, <<x, y>> >>, h |-> h]
  [] k = 3 -> [p |-> << <<x, y>>, <<x, y + l>> >>, h |-> h]
  [] OTHER -> [p |-> << <<x, y + l>>, <<x, y>> >>, h |-> h]
RECURSIVE Sws(_, _)
Sws(n, x) == IF n = 0 THEN <<>> ELSE <<ASw(R(1..4), R(-2..(12 + x)), R(-2..15), R(1..16), R(1..4))>> \o Sws(n - 1, x)
RECURSIVE Groups(_, _)
Groups(n, x) == IF n = 0 THEN <<>> ELSE <<Sws(R(0..4), x)>> \o Groups(n - 1, x)
\* routes: swaths as points, axis-aligned, of two or three points
Bend(k, s, m) == IF k = 1 THEN s.p ELSE Append(s.p, IF s.p[1][1] = s.p[2][1] THEN <<s.p[2][1] + m, s.p[2][2]>> ELSE <<s.p[2][1], s.p[2][2] + m>>)
ABend == Bend(R(1..3), ASw(R(1..4), R(0..9), R(0..9), R(1..9), 1), R({-3, -1, 2, 5}))
RECURSIVE Bends(_)
Bends(n) == IF n = 0 THEN <<>> ELSE <<ABend>> \o Bends(n - 1)
APt == <<R(0..20), R(0..20)>>
RECURSIVE Points(_), SwGroups(_), Cons(_)
Points(n) == IF n = 0 THEN <<>> ELSE <<APt>> \o Points(n - 1)
SwGroups(n) == IF n = 0 THEN <<>> ELSE <<Bends(R({0, 1, 1, 2, 3}))>> \o SwGroups(n - 1)
Cons(n) == IF n = 0 THEN <<>> ELSE <<Points(R({0, 0, 1, 2, 3}))>> \o Cons(n - 1)
Dirs == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<3, 4>>, <<4, 3>>, <<-3, 4>>, <<4, -3>>, <<-4, -3>>, <<3, -4>>}
Kinds == {"dist", "plain", "turn", "turner"}
Pick(v, u, n, m) ==
  LET k == R(1..9) IN
  CASE k <= 3 -> [op |-> "sg", v |-> v, g |-> Groups(n, IF Len(v) = 2 THEN 14 ELSE 4)]
    [] k = 4 -> [op |-> "rem", v |-> v, u |-> u]
    [] k = 5 -> [op |-> "mod", v |-> <<v[1]>>, d |-> R(Dirs), w |-> R(5..90)]
    [] k = 6 -> [op |-> "mod", v |-> <<ACell>>, d |-> R(Dirs), w |-> R(5..90)]
    [] k = 7 -> [op |-> "rp", kind |-> R(Kinds), a |-> ABend, b |-> ABend, ps |-> Points(R(0..4)), p |-> APt, q |-> R(0..3)]
    [] OTHER -> [op |-> "route", kind |-> R(Kinds), sw |-> SwGroups(n), cn |-> Cons(n + m)]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E v \in {Fields(R(1..3))} : \E u \in {Fields(R(1..3))} : \E n \in {R(0..3)} : \E m \in {R(0..1)} :
          \E o \in {Pick(v, u, n, m)} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
