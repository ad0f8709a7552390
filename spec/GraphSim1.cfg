SPECIFICATION Spec
CONSTANTS Depth = 40
          Focus = "C01"
          Big = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
