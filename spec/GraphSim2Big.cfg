SPECIFICATION Spec
CONSTANTS Depth = 80
          Focus = "C02"
          Big = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
