CONSTANTS
  Kinds = {}
  MaxLen = 0
  Chunks = {}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
