----------------------------- MODULE RandomSim -----------------------------
(* Requests to three generators, interleaved at random; two of them usually  *)
(* ask the same things, at different moments.                                *)
EXTENDS RandomGen, Json
CONSTANTS Depth
VARIABLES hist, todo
\* refers to a variable so that TLC draws anew every time
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
Names == <<"double", "linear", "exp", "expdist", "angle", "cell", "cellw", "convex", "convex", "nonconvex", "field", "convexF", "nonconvexF">>
Req == LET o == Names[R(1..Len(Names))] ar == R({1, 50, 10000, 1000000}) IN
  CASE o = "linear" -> LET l == R(-50..50) IN [op |-> o, lo |-> l, hi |-> l + R(1..100)]
    [] o = "exp" -> LET l == R(1..50) IN [op |-> o, lo |-> l, hi |-> l + R(1..100)]
    [] o = "expdist" -> [op |-> o, lam |-> R(1..5)]
    [] o \in {"cell", "field"} -> [op |-> o, area |-> R({ar, ar, ar, ar, ar, 0, -1}), n |-> R(2..14)]
    [] o = "cellw" -> [op |-> o, area |-> ar, n |-> R(3..9), lo |-> R(1..4), hi |-> R(5..20)]
    [] o \in {"convex", "convexF"} -> [op |-> o, area |-> ar, n |-> R(3..6)]
    [] o \in {"nonconvex", "nonconvexF"} -> [op |-> o, area |-> ar]
    [] OTHER -> [op |-> o]
Init == /\ \E n \in {0, 1, 5, 42, 99999} :
             hist = <<[op |-> "seed", a |-> 0, s |-> n], [op |-> "seed", a |-> 1, s |-> n],
                      [op |-> "seed", a |-> 2, s |-> n]>>
        /\ todo = [k \in 0..1 |-> <<>>]
With(q, a) == q @@ [a |-> a]
Last == [op |-> "fresh", a |-> R(0..2)]
\* generator 0 makes a new request, which 1 will repeat later; 2 does its own
Next == /\ Len(hist) < Depth
        /\ IF Len(hist) = Depth - 1 THEN hist' = Append(hist, Last) /\ UNCHANGED todo
           ELSE \E c \in {R(0..9)}, q \in {Req} :
             CASE c <= 3 -> hist' = Append(hist, With(q, 0)) /\ todo' = [todo EXCEPT ![1] = Append(@, q)]
               [] c <= 7 /\ todo[1] # <<>> -> hist' = Append(hist, With(todo[1][1], 1)) /\ todo' = [todo EXCEPT ![1] = Tail(@)]
               [] c = 8 -> hist' = Append(hist, With(q, 2)) /\ UNCHANGED todo
               [] OTHER -> hist' = Append(hist, IF R(0..3) = 0 THEN [op |-> "copy", a |-> 2, b |-> 0] ELSE With(q, 2)) /\ UNCHANGED todo
Spec == Init /\ [][Next]_<<hist, todo>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
