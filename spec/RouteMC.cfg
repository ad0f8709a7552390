SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS PairedInv TripInv
CHECK_DEADLOCK FALSE
