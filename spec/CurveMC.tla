------------------------------ MODULE CurveMC ------------------------------
(* Design: easing attempt by attempt ends at the first curve without loop,      *)
(* never later, and after 21 steps whatever happens; limits only get smaller.   *)
EXTENDS Curve
VARIABLES script, n, done
Pieces1 == {<<>>, <<10>>, <<17>>, <<19>>, <<-19>>, <<10, 10>>, <<17, -17>>, <<10, -10, 8>>, <<10, -12, 9>>}
Init == script \in UNION {[1..k -> Pieces1] : k \in 0..3} /\ n = 0 /\ done = FALSE
Try == ~done /\ (IF Loops(Attempt(script, n)) /\ n <= 20 THEN n' = n + 1 /\ UNCHANGED <<script, done>> ELSE done' = TRUE /\ UNCHANGED <<script, n>>)
Next == Try \/ (done /\ UNCHANGED <<script, n, done>>)
Spec == Init /\ [][Next]_<<script, n, done>> /\ WF_<<script, n, done>>(Try)
Earliest == done => n = Eased(script, 0) /\ \A k \in 0..(n - 1) : Loops(Attempt(script, k))
NoLoopLeft == done => n = 21 \/ ~Loops(Attempt(script, n))
Smaller == n > 0 => Curv(1000, n) < Curv(1000, n - 1) /\ Diff(1000, n) < Diff(1000, n - 1)
Ends == <>done
=============================================================================
