SPECIFICATION Spec
CONSTANTS
  NInputs = 3
  MaxChunks = 2
  MaxSize = 1
  MaxSteps = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
