SPECIFICATION Spec
CONSTANTS Share = "load"
 Depth = 4
INVARIANTS Seen
CHECK_DEADLOCK FALSE
