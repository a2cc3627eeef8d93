SPECIFICATION Spec
CONSTANTS
  Ns = {0, 4, 5}
  P = 2
  Chunk = 2
  Depth = 3
  Starts = {0, 3}
  Durs = {2}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
