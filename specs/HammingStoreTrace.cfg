SPECIFICATION TraceSpec
CONSTANTS
  Handles = {1, 2, 3}
  Sizes = {0}
  Metas = {1}
  Depth = 0
CHECK_DEADLOCK FALSE
