SPECIFICATION Spec
CONSTANTS N = 2
 Redirect = TRUE
 Shared = TRUE
INVARIANTS Solvable Right Complete
CHECK_DEADLOCK FALSE
