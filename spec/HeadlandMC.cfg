SPECIFICATION Spec
CONSTANTS Side = 3
 Block = 4
INVARIANTS Meaning Zero Monotone Compose Inside Nested
CHECK_DEADLOCK FALSE
