SPECIFICATION Spec
VIEW view
CONSTANTS N = 3
          Costs = {1, 3}
          KeepOnRemove = FALSE
          Focus = "C02"
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
