SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS Stays Undone UndoneIs Keeps Zoned Alike
CHECK_DEADLOCK FALSE
