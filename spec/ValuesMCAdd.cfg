SPECIFICATION Spec
CONSTANTS Share = "add"
 Depth = 3
INVARIANTS Seen
CHECK_DEADLOCK FALSE
