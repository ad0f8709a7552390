SPECIFICATION Spec
CONSTANT Size = 12
INVARIANTS OnMainland Once TracksFull NoGap Between StraightOn
CHECK_DEADLOCK FALSE
