SPECIFICATION Spec
CONSTANTS N = 3
 Redirect = FALSE
 Shared = FALSE
INVARIANTS Solvable Right Complete
CHECK_DEADLOCK FALSE
