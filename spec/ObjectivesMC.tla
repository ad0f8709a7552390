----------------------------- MODULE ObjectivesMC ----------------------------
(* Laws of what the objectives measure (C21), over all small fields of squares *)
(* and strips, and over all short routes.                                     *)
EXTENDS Objectives, TLC
VARIABLES F, ss, kind, q
S(a, b, h) == [p |-> <<a, b>>, h |-> h]
Strips == {S(<<0, y>>, <<4, y>>, 1) : y \in {1, 2, 3}} \cup {S(<<4, 1>>, <<1, 1>>, 1), S(<<2, 4>>, <<2, 0>>, 2), S(<<1, 1>>, <<3, 1>>, 1)}
Fields == {{g \in Grid : g[1] < 4 /\ g[2] < 4}, {g \in Grid : g[1] < 4 /\ g[2] < 4 /\ ~(g[1] \in {1, 2} /\ g[2] = 2)}, {<<0, 0>>, <<5, 5>>}}
Stop == {[k |-> 0, s |-> << <<0, 0>>, <<3, 4>> >>], [k |-> 0, s |-> << <<6, 8>> >>], [k |-> 1, s |-> << <<0, 0>>, <<0, 5>> >>], [k |-> 1, s |-> << <<9, 5>>, <<9, 0>>, <<3, 0>> >>]}
Init == F \in Fields /\ ss = <<>> /\ kind \in {"dist", "turn"} /\ q = <<>>
Next == \/ Len(ss) < 3 /\ q = <<>> /\ kind = "dist" /\ \E s \in Strips : ss' = Append(ss, s) /\ UNCHANGED <<F, kind, q>>
        \/ Len(q) < 4 /\ ss = <<>> /\ F = {<<0, 0>>, <<5, 5>>} /\ \E s \in Stop : q' = Append(q, s) /\ UNCHANGED <<F, kind, ss>>
Spec == Init /\ [][Next]_<<F, ss, kind, q>>
n == Len(ss)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Turned(s) == [s EXCEPT !.p = <<@[2], @[1]>>]
\* more swaths never cover less, the order and the direction do not matter
Grows == n > 0 => Covered(F, Tail(ss)) \subseteq Covered(F, ss)
NoOrder == Covered(F, Rev(ss)) = Covered(F, ss) /\ Doubly(F, Rev(ss)) = Doubly(F, ss)
NoDirection == LET t == [i \in 1..n |-> Turned(ss[i])] IN Covered(F, t) = Covered(F, ss) /\ Doubly(F, t) = Doubly(F, ss) /\ Lengths(t) = Lengths(ss)
\* what is covered and what is covered again add up to what is driven
Adds2 == LET u == [i \in 1..n |-> Cardinality(Under(F, ss[i]))] c == Cardinality(Covered(F, ss)) IN
  c <= Sum(u) /\ Sum(u) <= c + Doubly(F, ss) /\ (n <= 2 => Sum(u) = c + Doubly(F, ss))
\* the cost of a route is that of both halves and of the leg between
Halves == \A k \in 1..(Len(q) - 1) : LET a == SubSeq(q, 1, k) b == SubSeq(q, k + 1, Len(q)) IN
  StopsCost(kind, q) = StopsCost(kind, a) + Leg(kind, q[k], q[k + 1]) + StopsCost(kind, b)
\* swaths only: the cost of a group
Group == (\A i \in 1..Len(q) : q[i].k = 1) => StopsCost(kind, q) = GroupCost(kind, [i \in 1..Len(q) |-> q[i].s])
\* a route is at least as long as its swaths and its points
Least == LET each == [i \in 1..Len(q) |-> PtsCost(q[i].s)] IN StopsCost(kind, q) >= Sum(each)
=============================================================================
