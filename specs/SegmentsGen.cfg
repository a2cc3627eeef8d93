CONSTANTS
  MaxN = 5
  Fs = {1}
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
