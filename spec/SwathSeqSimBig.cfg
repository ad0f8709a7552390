SPECIFICATION Spec
CONSTANTS Depth = 40 Cap = 140
INVARIANT Emit
CHECK_DEADLOCK FALSE
