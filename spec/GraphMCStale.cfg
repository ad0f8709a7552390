SPECIFICATION Spec
VIEW view
CONSTANTS N = 3
          Costs = {1, 3}
          KeepOnRemove = TRUE
          Focus = "C01"
INVARIANTS CostsFresh PathsFresh TablesFresh RelaxRight Triangle
CHECK_DEADLOCK FALSE
