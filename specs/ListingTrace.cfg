SPECIFICATION TraceSpec
CONSTANTS
  Walkers = {1, 2}
  Sizes = {0, 1, 2}
  MaxPages = 2
  Limits = {0, 1, 3, 9}
  Depth = 8
CHECK_DEADLOCK FALSE
