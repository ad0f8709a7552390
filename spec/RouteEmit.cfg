SPECIFICATION Spec
VIEW view
CONSTANTS MaxLen = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
