CONSTANTS
  MaxN = 0
  Fs = {}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
