------------------------------- MODULE PlanMC --------------------------------
(* Design of planning a path over a route (C14): the code goes through the    *)
(* groups of swaths with the swaths before and the points gathered since, and *)
(* skips empty groups.  Checked against the legs of Plan.tla, over all short  *)
(* routes: same legs, same poses at both ends of every connection, nothing    *)
(* driven only where there is nothing to drive, and no gaps.                  *)
EXTENDS Plan
CONSTANTS MaxParts
A == << <<0, 0>>, <<0, 9>> >>
B == << <<5, 9>>, <<5, 4>>, <<5, 0>> >>
Cons == {<<>>, << <<0, 0>> >>, << <<5, 0>> >>, << <<7, 7>> >>, << <<5, 0>>, <<8, 0>> >>, << <<8, 0>>, <<8, 9>>, <<0, 9>> >>}
Groups == {<<>>, <<A>>, <<B>>, <<A, B>>}
VARIABLES parts, done
Init == parts = <<>> /\ done = FALSE
Next == ~done /\ Len(parts) < MaxParts /\ \E c \in Cons : \E g \in Groups : parts' = Append(parts, [con |-> c, swaths |-> g]) /\ done' \in {FALSE, g = <<>>}
Spec == Init /\ [][Next]_<<parts, done>>
\* --- the code ---
RECURSIVE Fold(_, _, _)
Fold(i, prev, con) ==
  IF i > Len(parts) THEN << [k |-> "con", prev |-> prev, mp |-> con, next |-> <<>>] >>
  ELSE LET c == con \o parts[i].con g == parts[i].swaths IN
       IF g = <<>> THEN Fold(i + 1, prev, c)
       ELSE << [k |-> "con", prev |-> prev, mp |-> c, next |-> g] >> \o GroupLegs(g, 1) \o Fold(i + 1, g, <<>>)
Code == Fold(1, <<>>, <<>>)
\* poses of a connection between the groups s1 and s2; <<>>: nothing is driven
CodeA(s1, mp, s2) ==
  IF s1 # <<>> THEN << [p |-> Last(Last(s1)), v |-> OutDir(Last(s1))] >>
  ELSE IF Len(mp) > 1 THEN << [p |-> mp[1], v |-> Sub(mp[2], mp[1])] >>
  ELSE IF Len(mp) = 1 /\ s2 # <<>> /\ mp[1] # s2[1][1] THEN << [p |-> mp[1], v |-> Sub(s2[1][1], mp[1])] >>
  ELSE <<>>
CodeB(p1, mp, s2) ==
  IF s2 # <<>> THEN << [p |-> s2[1][1], v |-> Out(s2[1])] >>
  ELSE IF Len(mp) > 1 THEN << [p |-> Last(mp), v |-> Sub(Last(mp), mp[Len(mp) - 1])] >>
  ELSE IF Len(mp) = 1 /\ mp[1] # p1 THEN << [p |-> mp[1], v |-> Sub(mp[1], p1)] >>
  ELSE <<>>
\* --- compared ---
\* the last leg of the code may be empty
Strip(l) == IF l.k # "con" THEN l ELSE [l EXCEPT !.prev = IF @ = <<>> THEN <<>> ELSE Last(@), !.next = IF @ = <<>> THEN <<>> ELSE @[1]]
CodeLegs == LET c == Code n == Len(c) t == IF c[n].mp = <<>> THEN SubSeq(c, 1, n - 1) ELSE c IN [i \in 1..Len(t) |-> Strip(t[i])]
SameLegs == CodeLegs = Legs(parts, 1, <<>>, <<>>)
SamePoses == \A i \in 1..Len(Code) : Code[i].k = "con" =>
  LET c == Code[i] l == Strip(c) a == CodeA(c.prev, c.mp, c.next) b == IF a = <<>> THEN <<>> ELSE CodeB(a[1].p, c.mp, c.next) IN
  IF b = <<>> THEN NoDrive(l) \/ May0(l)
  ELSE ~NoDrive(l) /\ a[1] = PoseA(l) /\ b[1] = PoseB(l)
\* every swath of the route is driven, in order
Driven(ls) == SelectSeq(ls, LAMBDA l : l.k = "swath")
RECURSIVE AllSwaths(_)
AllSwaths(i) == IF i > Len(parts) THEN <<>> ELSE parts[i].swaths \o AllSwaths(i + 1)
InOrderAll == LET d == Driven(Legs(parts, 1, <<>>, <<>>)) s == AllSwaths(1) IN Len(d) = Len(s) /\ \A i \in 1..Len(d) : d[i].s = s[i]
\* a leg starts where the one before ends
From(l) == CASE l.k = "swath" -> l.s[1] [] l.k = "turn" -> Last(l.s1) [] OTHER -> PoseA(l).p
To(l) == CASE l.k = "swath" -> Last(l.s) [] l.k = "turn" -> l.s2[1] [] OTHER -> PoseB(l).p
Gapless == LET ls == SelectSeq(Legs(parts, 1, <<>>, <<>>), LAMBDA l : l.k # "con" \/ ~NoDrive(l)) IN
  \A i \in 2..Len(ls) : To(ls[i - 1]) = From(ls[i])
=============================================================================
