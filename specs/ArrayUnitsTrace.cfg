CONSTANTS
  Shapes = {}
  Kinds = {}
  Depth = 0
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
