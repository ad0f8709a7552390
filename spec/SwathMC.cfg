SPECIFICATION Spec
VIEW view
CONSTANTS MaxLen = 6
          MaxShift = 1
INVARIANTS EqSym TwiceSame SameLand Redirect LengthKept
CHECK_DEADLOCK FALSE
