SPECIFICATION Spec
VIEW view
CONSTANTS Points <- ThePoints
          MaxLen = 6
INVARIANTS Bijection
PROPERTIES Stable
CHECK_DEADLOCK FALSE
