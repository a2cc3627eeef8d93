SPECIFICATION TraceSpec
CONSTANTS
  Ratios <- R1
  Look = 2
  Sizes = {0, 1, 2, 5}
  Depth = 4
CHECK_DEADLOCK FALSE
