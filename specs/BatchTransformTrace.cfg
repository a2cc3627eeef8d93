SPECIFICATION TraceSpec
CONSTANTS
  Sizes = {1, 2, 3, 5}
  Items = {0, 1, 3}
  Chunks = {1, 2, 9}
  Depth = 5
CHECK_DEADLOCK FALSE
