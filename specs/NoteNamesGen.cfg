SPECIFICATION Spec
CONSTANTS
  Start = 5
  Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
