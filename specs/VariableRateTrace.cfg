CONSTANTS
  Starts = {0}
  Lens = {1}
  Size = 0
  Queries = {0}
  Depth = 0
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
