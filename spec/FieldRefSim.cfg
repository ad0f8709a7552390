SPECIFICATION Spec
CONSTANTS Depth = 25
INVARIANT Emit
CHECK_DEADLOCK FALSE
