SPECIFICATION Spec
VIEW view
CONSTANTS MaxLen = 4
          MaxShift = 1
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
