SPECIFICATION Spec
CONSTANTS Depth = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
