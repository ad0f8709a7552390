SPECIFICATION Spec
CONSTANTS Key = {"curv", "dcurv", "disc", "vel"}
INVARIANTS Fresh Joins Mirrors
CHECK_DEADLOCK FALSE
