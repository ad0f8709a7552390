SPECIFICATION Spec
CONSTANTS Depth = 11
INVARIANT Emit
CHECK_DEADLOCK FALSE
