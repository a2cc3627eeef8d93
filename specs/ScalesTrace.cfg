SPECIFICATION TraceSpec
CONSTANTS
  Top = 4
  MaxBands = 3
  Values = {1, 3}
  Depth = 4
CHECK_DEADLOCK FALSE
