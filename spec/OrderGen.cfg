SPECIFICATION Spec
CONSTANTS MaxN = 12
          Reps = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
