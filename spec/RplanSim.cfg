SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
