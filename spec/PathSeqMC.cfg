SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS JoinAdds Turns TurnsAdd Mirrors HalfTurn Rigid Thins Covered Single
CHECK_DEADLOCK FALSE
