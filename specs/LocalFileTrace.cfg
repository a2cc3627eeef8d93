SPECIFICATION TraceSpec
CONSTANTS
  Clients = {1, 2}
  Pieces = 2
  Versions = 2
  Depth = 7
CHECK_DEADLOCK FALSE
