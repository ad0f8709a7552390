------------------------------ MODULE RplanSim -----------------------------
(* Random headlands with swaths in them.                                      *)
EXTENDS Rplan
CONSTANTS Depth
VARIABLES hist
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
Rect(x, y, w, h) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>, <<x, y>>>>
LShape(w, h, a, b) == <<<<0, 0>>, <<w, 0>>, <<w, b>>, <<a, b>>, <<a, h>>, <<0, h>>, <<0, 0>>>>
Hole(x, y, w, h) == Rect(x, y, w, h)
\* first cell, possibly with a hole; second cell beside it: apart, touching or none
Cells(w, h) ==
  LET k == R(1..6) IN
  CASE k = 1 -> << <<Rect(0, 0, w, h)>> >>
    [] k \in 2..3 -> << <<Rect(0, 0, w, h), Hole(R(2..4), R(3..6), R(2..4), R(2..6))>> >>
    [] k = 4 -> << <<LShape(w, h, R(4..(w - 3)), R(4..(h - 3)))>> >>
    [] k = 5 -> << <<Rect(0, 0, w, h)>>, <<Rect(w, R(-4..4), R(6..14), R(8..14))>> >>
    [] OTHER -> << <<Rect(0, 0, w, h)>>, <<Rect(w + R(1..5), R(-4..4), R(6..14), R(8..14))>> >>
Good(p, segs) == Cardinality(Closest(p, segs)) = 1 /\ LET q == Proj(p, segs) IN p[1] = q[1] \/ p[2] = q[2]
Mid2(s) == <<s[1][1] + Last(s)[1], s[1][2] + Last(s)[2]>>
Dbl(p) == <<2 * p[1], 2 * p[2]>>
\* swath s can join those in sw: no two nodes fall together unless they are ends that may
Fits(s, sw, directed) ==
  /\ \A i \in 1..Len(sw) : LET t == sw[i] IN
       /\ {s[1], Last(s)} # {t[1], Last(t)}
       /\ Mid2(s) \notin {Mid2(t), Dbl(t[1]), Dbl(Last(t))} /\ Mid2(t) \notin {Dbl(s[1]), Dbl(Last(s))}
       /\ (directed => s[1] # t[1] /\ Last(s) # Last(t))
  /\ \A p \in {s[1], Last(s)} : Cardinality({i \in 1..Len(sw) : p \in {sw[i][1], Last(sw[i])}}) <= 1
  \* swaths that meet end to end are no closed chain
  /\ \E p \in {s[1], Last(s)} : \A i \in 1..Len(sw) : p \notin {sw[i][1], Last(sw[i])}
ASwath(w, h, up) ==
  LET a == R(0..w) b == R(0..(h \div 2)) c == R((h \div 2 + 1)..h)
      p == IF up THEN <<a, b>> ELSE <<R(0..(w \div 2 - 1)), R(0..h)>>
      q == IF up THEN <<a, c>> ELSE <<R((w \div 2 + 1)..w), p[2]>>
      m == R(1..5)
      l == CASE m = 1 -> <<p, <<p[1] + 1, p[2] + 1>>, q>> [] m = 2 /\ up -> <<p, <<a, (b + c) \div 2>>, q>> [] OTHER -> <<p, q>> IN
  IF R(1..2) = 1 THEN l ELSE Rev(l)
RECURSIVE Add(_, _, _, _, _, _, _)
Add(n, sw, segs, w, h, up, directed) ==
  IF n = 0 THEN sw
  ELSE LET s1 == ASwath(w, h, up)
           \* now and then it goes on where another one ended
           s == IF sw # <<>> /\ R(1..6) = 1 THEN LET p == Last(Last(sw)) IN <<p, IF up THEN <<p[1], p[2] + R({-3, -2, 2, 3, 5})>> ELSE <<p[1] + R({-3, -2, 2, 3, 5}), p[2]>>>> ELSE s1 IN
       Add(n - 1, IF Good(s[1], segs) /\ Good(Last(s), segs) /\ Fits(s, sw, directed) THEN Append(sw, s) ELSE sw, segs, w, h, up, directed)
Dress(sw) == [i \in 1..Len(sw) |-> [id |-> R({i, i, i, 10 + i}), w |-> R(1..4), type |-> R({0, 0, 1}), cd |-> R({TRUE, TRUE, FALSE}), pts |-> sw[i]]]
\* swaths in up to three groups, some of them empty
Split(s) == LET k == R(1..4) i == R(0..Len(s)) IN
  IF k = 1 THEN <<SubSeq(s, 1, i), SubSeq(s, i + 1, Len(s))>> ELSE IF k = 2 THEN << <<>>, s>> ELSE <<s>>
StartPts(sw, segs, w, h) == LET k == R(1..8) p == <<R(-3..(w + 3)), R(-3..(h + 3))>> IN
  CASE k \in 1..3 -> <<>>
    [] k = 4 /\ sw # <<>> -> <<sw[R(1..Len(sw))][1]>>
    [] k = 5 /\ sw # <<>> -> <<Last(sw[R(1..Len(sw))])>>
    [] k = 6 /\ sw # <<>> -> LET m == Mid2(sw[1]) q == <<m[1] \div 2, m[2] \div 2>> IN IF Good(q, segs) THEN <<q>> ELSE <<>>
    [] OTHER -> IF Good(p, segs) THEN <<p>> ELSE <<>>
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Shuffle(S \ {x})
Order(n, redirect) == LET p == Shuffle(1..n) IN [i \in 1..n |-> <<p[i], IF redirect THEN R(0..1) ELSE 0>>]
Offs == {<<0, 0>>, <<0, 0>>, <<-20, 35>>, <<500000, 4600000>>}
\* two swaths that end at one point when none may be reversed: one is lost (known)
Known == [op |-> "plan", cells |-> << <<Rect(0, 0, 12, 10)>> >>, swaths |-> << <<[id |-> 1, w |-> 2, type |-> 1, cd |-> TRUE, pts |-> <<<<3, 0>>, <<3, 4>>>>], [id |-> 2, w |-> 2, type |-> 1, cd |-> TRUE, pts |-> <<<<3, 10>>, <<3, 4>>>>]>> >>,
          start |-> <<>>, redirect |-> FALSE, off |-> <<0, 0>>, unit |-> 1000]
Build(w, h, cells, up, redirect, op) ==
  LET segs == RingSegs(Flat(cells)) sw == Add(IF op = "plan" THEN R(0..5) ELSE R(1..9), <<>>, segs, w, h, up, ~redirect)
      o == [op |-> op, cells |-> cells, swaths |-> Split(Dress(sw)), start |-> StartPts(sw, segs, w, h), redirect |-> redirect, off |-> R(Offs), unit |-> R({1000, 1000, 100, 2300})] IN
  IF op = "plan" THEN o ELSE [order |-> Order(Len(sw), redirect)] @@ o
Pick == IF R(1..60) = 1 THEN Known ELSE LET w == R(9..20) h == R(8..18) IN Build(w, h, Cells(w, h), R({TRUE, FALSE}), R(1..3) > 1, R({"plan", "plan", "follow"}))
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
