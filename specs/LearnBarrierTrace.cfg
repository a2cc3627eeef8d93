SPECIFICATION TraceSpec
CONSTANTS
  NInputs = 2
  MaxChunks = 2
  MaxSize = 2
  MaxSteps = 2
CHECK_DEADLOCK FALSE
