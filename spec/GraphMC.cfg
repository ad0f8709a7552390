SPECIFICATION Spec
VIEW view
CONSTANTS N = 3
          Costs = {0, 1, 3}
          KeepOnRemove = FALSE
          Focus = "C01"
INVARIANTS CostsFresh PathsFresh TablesFresh RelaxRight Triangle
CHECK_DEADLOCK FALSE
