SPECIFICATION Spec
CONSTANTS Depth = 80
          Focus = "C01"
          Big = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
