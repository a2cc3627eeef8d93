SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Pieces = 1
  Versions = 2
  Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
