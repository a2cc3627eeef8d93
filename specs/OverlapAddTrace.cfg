SPECIFICATION TraceSpec
CONSTANTS
  Ws = {1, 2, 3}
  Hs = {1, 2, 3, 4}
  Vals = {0, 1, 2}
  MaxFrames = 3
CHECK_DEADLOCK FALSE
