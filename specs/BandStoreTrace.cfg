SPECIFICATION TraceSpec
CONSTANTS
  Widths <- W1
  Moments = {1, 2}
  Depth = 3
CHECK_DEADLOCK FALSE
