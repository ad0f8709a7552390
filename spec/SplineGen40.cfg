SPECIFICATION Spec
CONSTANTS Reps = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
