----------------------------- MODULE SplineGen -----------------------------
(* Knot sets: every small one over a coarse grid, and random longer ones.    *)
EXTENDS Spline, Json
CONSTANTS Reps
VARIABLES c, q
R(X) == RandomElement(X)
RECURSIVE Steps(_, _)
Steps(x, n) == IF n = 0 THEN <<x>> ELSE <<x>> \o Steps(x + R(1..5), n - 1)
Ys(n, kind) ==
  LET a == R(-10..10) b == R(-4..4) IN
  CASE kind = 0 -> [k \in 1..n |-> R(-20..20)]
    [] kind = 1 -> [k \in 1..n |-> a]
    [] kind = 2 -> LET s == Steps(a, n) IN [k \in 1..n |-> s[k] * (IF b < 0 THEN -1 ELSE 1)]
    [] kind = 3 -> [k \in 1..n |-> R({a, b})]
    [] kind = 4 -> LET s == Steps(a, n) IN [k \in 1..n |-> s[(k + 1) \div 2]]
    [] OTHER -> <<>>
Good(n, kind) == LET x == Steps(R(-10..10), n - 1) IN
  [xs |-> x, ys |-> IF kind = 5 THEN LET m == R(-3..3) d == R(-9..9) IN [k \in 1..n |-> m * x[k] + d] ELSE Ys(n, kind)]
Broken(n) == LET g == Good(n, 0) k == R(0..3) i == R(1..n) IN
  CASE k = 0 -> [g EXCEPT !.ys = Append(@, 3)]
    [] k = 1 -> [xs |-> <<1>>, ys |-> <<2>>]
    [] k = 2 -> [g EXCEPT !.xs[i] = IF i = 1 THEN g.xs[2] ELSE g.xs[i - 1]]
    [] k = 3 -> [g EXCEPT !.xs[i] = IF i = 1 THEN g.xs[n] + 1 ELSE g.xs[1] - 1]
Cases == {[n |-> n, kind |-> k, mono |-> m, rep |-> r, bad |-> FALSE] :
            n \in 2..8, k \in 0..5, m \in {TRUE, FALSE}, r \in 1..Reps}
   \cup {[n |-> n, kind |-> 0, mono |-> m, rep |-> r, bad |-> TRUE] :
            n \in 2..6, m \in {TRUE, FALSE}, r \in 1..Reps}
Op(k, how) ==
  LET g == IF k.bad THEN Broken(k.n) ELSE Good(k.n, k.kind) IN
  [op |-> how, xs |-> g.xs, ys |-> g.ys, mono |-> k.mono]
Init == c \in Cases
     /\ q = LET a == Op(c, R({"make", "set"})) b == Op([c EXCEPT !.n = R(2..6), !.bad = FALSE, !.mono = R({TRUE, FALSE})], "set") IN
            IF c.bad THEN <<a>> ELSE <<a, [op |-> "eval"], b, [op |-> "eval"]>>
Next == FALSE /\ UNCHANGED <<c, q>>
Spec == Init /\ [][Next]_<<c, q>>
Emit == PrintT(ToJson([ops |-> q]))
=============================================================================
