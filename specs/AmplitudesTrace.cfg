SPECIFICATION TraceSpec
CONSTANTS
  Rows = 2
  Cols = 2
  Ks = {2, 3}
  Levels <- L1
  Depth = 3
CHECK_DEADLOCK FALSE
