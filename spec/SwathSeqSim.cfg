SPECIFICATION Spec
CONSTANTS Depth = 50 Cap = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
