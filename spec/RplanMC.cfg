SPECIFICATION Spec
CONSTANTS N = 3
 Redirect = TRUE
 Shared = FALSE
INVARIANTS Solvable Right Complete
CHECK_DEADLOCK FALSE
