SPECIFICATION Spec
CONSTANTS
  Walkers = {1}
  Sizes = {0, 1, 3}
  MaxPages = 2
  Limits = {0, 1, 2, 5, 9}
  Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
