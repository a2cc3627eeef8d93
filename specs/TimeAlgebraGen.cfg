CONSTANTS
  Starts <- StartsB
  Lens = {0, 1, 2, 4}
  Depth = 2
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
