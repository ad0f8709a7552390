SPECIFICATION Spec
VIEW view
CONSTANTS MaxLen = 4
          MaxSize = 9
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
