SPECIFICATION Spec
VIEW view
CONSTANTS MaxLen = 3
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
