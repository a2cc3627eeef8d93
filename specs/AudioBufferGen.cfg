CONSTANTS
  Vals = {0}
  MaxLen = 1
  Depth = 3
  Pads = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
