------------------------------ MODULE PathSeqMC ------------------------------
(* Laws of the operations on paths (C13), over all short paths.               *)
EXTENDS PathSeq
CONSTANTS MaxLen
Secs == {<<x, 0, 0, u, l, d, t, 4>> : x \in {0, 30}, u \in {<<1, 0, 1>>, <<3, 4, 5>>}, l \in {0, 25}, d \in {1, -1}, t \in {2}} \cup {<<10, 0, 0, <<1, 0, 1>>, 10, 1, 1, 4>>}
VARIABLES p, q
\* the second path is short
Init == p = <<>> /\ q \in {<<>>} \cup {<<s>> : s \in {<<0, 5, 0, <<0, -1, 1>>, 15, 1, 2, 4>>}}
Next == Len(p) < MaxLen /\ \E s \in Secs : p' = Append(p, s) /\ UNCHANGED q
Spec == Init /\ [][Next]_<<p, q>>
Do(e) == PDo(<<p, q>>, e)
JoinAdds == LET j == Do([op |-> "join", a |-> 1, b |-> 2])[1] IN Total(j) = Total(p) + Total(q) /\ Len(j) = Len(p) + Len(q)
RECURSIVE Rep(_, _, _)
Rep(P, e, n) == IF n = 0 THEN P ELSE Rep(PDo(P, e), e, n - 1)
Turns == Rep(<<p, q>>, [op |-> "rotate", a |-> 1, p |-> <<7, -3>>, k |-> 1], 4)[1] = p
TurnsAdd == Rep(<<p, q>>, [op |-> "rotate", a |-> 1, p |-> <<7, -3>>, k |-> 1], 3) = Do([op |-> "rotate", a |-> 1, p |-> <<7, -3>>, k |-> 3])
Mirrors == \A o \in {"mirx", "miry"} : Rep(<<p, q>>, [op |-> o, a |-> 1], 2)[1] = p
HalfTurn == PDo(PDo(<<p, q>>, [op |-> "mirx", a |-> 1]), [op |-> "miry", a |-> 1])[1] = Do([op |-> "rotate", a |-> 1, p |-> <<0, 0>>, k |-> 2])[1]
\* moving, turning and mirroring keep lengths and the gaps between sections
Ends(x) == [i \in 1..Len(x) |-> <<EndX(x[i]) - x[i][4][3] * x[i][1], EndY(x[i]) - x[i][4][3] * x[i][2]>>]
SquareOf(v) == v[1] * v[1] + v[2] * v[2]
Rigid == \A o \in {[op |-> "move", a |-> 1, p |-> <<5, -9, 2>>], [op |-> "rotate", a |-> 1, p |-> <<7, -3>>, k |-> 1], [op |-> "mirx", a |-> 1], [op |-> "miry", a |-> 1]} :
  LET r == Do(o)[1] IN Total(r) = Total(p) /\ \A i \in 1..Len(p) : SquareOf(Ends(r)[i]) = SquareOf(Ends(p)[i])
\* thinning keeps the total length, the first section and every kind of section, and is final
Thin(x, d) == ReduceFrom(x, 1, d)
Kinds(x) == {<<x[i][6], x[i][7], x[i][8]>> : i \in 1..Len(x)}
Thins == \A d \in {1, 20, 40} : LET r == Thin(p, d) IN
  /\ Total(r) = Total(p) /\ Len(r) <= Len(p) /\ Kinds(r) = Kinds(p)
  /\ (p # <<>> => r[1] = [p[1] EXCEPT ![5] = r[1][5]])
  /\ Thin(r, d) = r
\* every travelled distance is on a section; inside a section, on that one only
Covered == \A t \in 0..(2 * Total(p)) : p # <<>> => Holding(p, (K * t) \div 2, 0) # {}
Single == \A i \in 1..Len(p) : LET t == K * Cum(p, i - 1) + 5 IN
  p[i][5] > 0 => (i \in Holding(p, t, 0) /\ \A j \in Holding(p, t, 0) : j = i)
=============================================================================
