SPECIFICATION Spec
CONSTANTS Depth = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
