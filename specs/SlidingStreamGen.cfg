CONSTANTS
  Ls = {1, 2, 3, 4, 5, 6, 7}
  Ws = {1, 2, 3, 4}
  Ss = {1, 2, 3, 5}
  Chunks = {1, 2, 3, 4, 5, 6, 7}
  MaxChunks = 7
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
