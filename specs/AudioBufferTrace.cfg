CONSTANTS
  Vals = {}
  MaxLen = 0
  Depth = 0
  Pads = {}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
