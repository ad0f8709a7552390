SPECIFICATION Spec
CONSTANTS Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
