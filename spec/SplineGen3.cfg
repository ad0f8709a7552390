SPECIFICATION Spec
CONSTANTS Reps = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
