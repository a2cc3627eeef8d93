SPECIFICATION Spec
CONSTANTS
  Walkers = {1, 2}
  Sizes = {0, 2}
  MaxPages = 2
  Limits = {2, 9}
  Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
