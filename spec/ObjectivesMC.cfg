SPECIFICATION Spec
INVARIANTS Grows NoOrder NoDirection Adds2 Halves Group Least
CHECK_DEADLOCK FALSE
