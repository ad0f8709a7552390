SPECIFICATION Spec
CONSTANTS Depth = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
