CONSTANTS
  Ls = {0}
  Ws = {1}
  Ss = {1}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
