SPECIFICATION Spec
CONSTANTS N = 2
 Redirect = FALSE
 Shared = TRUE
INVARIANTS Solvable Right Complete
CHECK_DEADLOCK FALSE
