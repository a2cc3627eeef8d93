SPECIFICATION TraceSpec
CONSTANTS
  Codes = {0, 1, 6, 7}
  Docs = {1, 2}
  Most = 3
  N = 2
  Depth = 5
CHECK_DEADLOCK FALSE
