SPECIFICATION Spec
CONSTANTS
  Clients = {1}
  Pieces = 2
  Versions = 2
  Depth = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
