SPECIFICATION TraceSpec
CONSTANTS
  Codes = {0}
  Ks = {1}
  Threads = {1}
  Most = 0
CHECK_DEADLOCK FALSE
