SPECIFICATION Spec
CONSTANTS Depth = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
