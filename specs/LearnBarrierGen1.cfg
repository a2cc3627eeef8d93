SPECIFICATION Spec
CONSTANTS
  NInputs = 1
  MaxChunks = 4
  MaxSize = 1
  MaxSteps = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
