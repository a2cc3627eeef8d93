CONSTANTS
  Lens = {3, 4}
  Headers = {0}
  Widths = {1, 2}
  Wants = {1, 3}
  Maxes = {0, 2}
  Chunks = {1, 2, 3, 5, 8}
  MaxChunks = 5
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
