CONSTANTS
  Starts = {0}
  Lens = {1}
  Depth = 0
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
