SPECIFICATION Spec
CONSTANTS
  NInputs = 2
  MaxChunks = 3
  MaxSize = 1
  MaxSteps = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
