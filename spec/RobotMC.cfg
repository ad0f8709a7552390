SPECIFICATION Spec
VIEW view
CONSTANTS MaxLen = 4
INVARIANTS CovSet LimOk
CHECK_DEADLOCK FALSE
