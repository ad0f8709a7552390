SPECIFICATION Spec
CONSTANTS M = 2
INVARIANTS Symmetric Finer Whole Strip Corner
CHECK_DEADLOCK FALSE
