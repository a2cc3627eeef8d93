SPECIFICATION TraceSpec
CONSTANTS
  Start = 5
  Depth = 40
CHECK_DEADLOCK FALSE
