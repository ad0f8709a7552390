SPECIFICATION Spec
CONSTANTS Share = "none"
 Depth = 5
INVARIANTS Seen
CHECK_DEADLOCK FALSE
