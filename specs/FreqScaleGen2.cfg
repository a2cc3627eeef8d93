CONSTANTS
  Depth = 2
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE

