SPECIFICATION Spec
CONSTANTS
  Ratios <- R2
  Look = 1000
  Sizes = {1, 2, 3, 4}
  Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
