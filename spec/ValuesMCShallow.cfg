SPECIFICATION Spec
CONSTANTS Share = "shallow"
 Depth = 5
INVARIANTS Seen
CHECK_DEADLOCK FALSE
