SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 4}
  Items = {2}
  Chunks = {1}
  Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
