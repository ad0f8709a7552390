------------------------------- MODULE PlaneMC -------------------------------
(* The oracles of Plane against their defining laws, for every angle in a     *)
(* window and every small segment.                                            *)
EXTENDS Plane
CONSTANTS N
As == {-725, -361, -180, -1, 0, 1, 44, 90, 179, 180, 181, 359, 360, 540}
VARIABLES a, b, p
Grid == {<<x, y, 0>> : x \in 0..N, y \in 0..N}
Init == a \in As /\ b \in -37..37 /\ p \in Grid
Next == UNCHANGED <<a, b, p>>
Spec == Init /\ [][Next]_<<a, b, p>>
Angles == \A k \in {0, 1, 5, 9} : p = <<0, 0, 0>> => AngleLaws(a, 10 * b + k)
Feet == \A s \in (IF b = 0 /\ a = 0 THEN Grid ELSE {}) : \A t \in (IF b = 0 /\ a = 0 THEN Grid ELSE {}) : FootLaws(p, s, t)
Turns == \A d \in {<<3, 4, 5>>, <<0, -1, 1>>, <<-12, 5, 13>>} : TurnLaws(p, d)
=============================================================================
