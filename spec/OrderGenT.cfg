SPECIFICATION Spec
CONSTANTS MaxN = 16
          Reps = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
