------------------------------ MODULE SplineMC -------------------------------
(* The predicates on observed splines (C25) against exact ones: the natural   *)
(* spline through three knots one apart, and what differs from it.            *)
EXTENDS Spline
CONSTANTS M
VARIABLES ys, bump
Init == ys \in [1..3 -> (0..(2 * M))] /\ bump \in {<<0, 0, 0>>} \cup ({1, 2} \X (2..3) \X {20, 21})
Next == FALSE /\ UNCHANGED <<ys, bump>>
Spec == Init /\ [][Next]_<<ys, bump>>
Y == [i \in 1..3 |-> ys[i] - M]
s == [xs |-> <<0, 1, 2>>, ys |-> Y, mono |-> FALSE]
D == Y[1] - 2 * Y[2] + Y[3]
\* at the thirds: the chord, less D 2/27 and D 5/54 (towards the middle knot)
At3(a, b, j, c) == (54 * U * ((3 - j) * a + j * b) - 3 * U * D * c) \div 162
Exact == << <<U * Y[1], At3(Y[1], Y[2], 1, 4), At3(Y[1], Y[2], 2, 5), U * Y[2]>>, <<U * Y[2], At3(Y[2], Y[3], 1, 5), At3(Y[2], Y[3], 2, 4), U * Y[3]>> >>
Shaken == IF bump[1] = 0 THEN Exact ELSE [Exact EXCEPT ![bump[1]][bump[2]] = @ + (IF bump[3] = 20 THEN 20 ELSE -20)]
r == [knots |-> [i \in 1..3 |-> U * Y[i]], pieces |-> Shaken]
Accepts == bump[1] = 0 => Knots(s, r) /\ Smooth(s, r) /\ Curved(s, r) /\ (Straight(s) => OnChords(s, r))
Refuses == bump[1] # 0 => ~(Smooth(s, r) /\ Curved(s, r))
=============================================================================
