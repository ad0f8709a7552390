SPECIFICATION Spec
CONSTANTS Key = {"curv", "dcurv", "disc"}
INVARIANTS Fresh Joins Mirrors
CHECK_DEADLOCK FALSE
