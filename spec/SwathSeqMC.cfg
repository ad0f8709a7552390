SPECIFICATION Spec
VIEW view
CONSTANTS MaxLen = 5
          MaxSize = 8
INVARIANTS NoLoss IndexTotal
CHECK_DEADLOCK FALSE
