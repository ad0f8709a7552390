SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Angles Feet Turns
CHECK_DEADLOCK FALSE
