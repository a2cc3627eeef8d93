SPECIFICATION Spec
CONSTANTS
  Rows = 1
  Cols = 1
  Ks = {1, 2, 4, 8}
  Levels <- L0
  Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
