SPECIFICATION Spec
INVARIANTS Earliest NoLoopLeft Smaller
PROPERTY Ends
CHECK_DEADLOCK FALSE
