SPECIFICATION TraceSpec
CONSTANTS
  Lengths = {6, 7}
  Moments = {0, 2, 5}
  Factors <- F1
  Shifts <- S1
  Delays <- D1
  Depth = 3
CHECK_DEADLOCK FALSE
