SPECIFICATION Spec
CONSTANTS
  Phys0 = {0, 1, 10}
  Pos0 = {0, 1, 10, 12}
  Rates = {1, 10, 100, 250}
  Sizes = {0, 1, 3, 25}
  Depth = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
