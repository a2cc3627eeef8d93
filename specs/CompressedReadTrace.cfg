SPECIFICATION TraceSpec
CONSTANTS
  Ns = {0, 1, 3, 4, 6}
  P = 3
  Chunk = 2
  Depth = 0
  Starts = {0, 1, 3, 6, 8}
  Durs = {0, 1, 2, 7}
CHECK_DEADLOCK FALSE
