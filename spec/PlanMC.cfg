SPECIFICATION Spec
CONSTANTS MaxParts = 3
INVARIANTS SameLegs SamePoses InOrderAll Gapless
CHECK_DEADLOCK FALSE
