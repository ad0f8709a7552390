SPECIFICATION Spec
CONSTANTS M = 3
INVARIANTS Even Spread Halved Round Inner Rect
CHECK_DEADLOCK FALSE
