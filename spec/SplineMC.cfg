SPECIFICATION Spec
CONSTANTS M = 6
INVARIANTS Accepts Refuses
CHECK_DEADLOCK FALSE
