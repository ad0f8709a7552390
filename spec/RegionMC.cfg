SPECIFICATION Spec
CONSTANTS M = 3
INVARIANTS SameIn SameArea Orient Triangle Pick Sound
CHECK_DEADLOCK FALSE
