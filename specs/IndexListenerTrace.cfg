SPECIFICATION TraceSpec
CONSTANTS
  Docs = {1}
  Insts = {1}
  MaxEvents = 0
  Depth = 0
CHECK_DEADLOCK FALSE
