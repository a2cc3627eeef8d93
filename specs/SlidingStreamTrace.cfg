CONSTANTS
  Ls = {0}
  Ws = {1}
  Ss = {1}
  Chunks = {1}
  MaxChunks = 0
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
