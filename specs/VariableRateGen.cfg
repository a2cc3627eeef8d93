CONSTANTS
  Starts <- StartsA
  Lens = {1, 3}
  Size = 3
  Queries <- QueriesB
  Depth = 2
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
