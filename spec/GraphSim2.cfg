SPECIFICATION Spec
CONSTANTS Depth = 40
          Focus = "C02"
          Big = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
