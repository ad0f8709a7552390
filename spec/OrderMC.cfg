SPECIFICATION Spec
CONSTANTS MaxN = 24
          Reps = 1
INVARIANTS SnakeRight SpiralRight Perms SnakeNear BlockKept
CHECK_DEADLOCK FALSE
