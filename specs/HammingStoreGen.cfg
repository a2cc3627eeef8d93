SPECIFICATION GenSpec
CONSTANTS
  Handles = {1, 2}
  Sizes = {0, 8, 16}
  Metas = {1}
  Depth = 5
INVARIANTS Emit
CHECK_DEADLOCK FALSE
