SPECIFICATION Spec
VIEW view
CONSTANTS Points <- ThePoints
          MaxLen = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
