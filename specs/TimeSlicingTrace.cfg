CONSTANTS
  Lengths = {0}
  Freqs = {1}
  Durs = {0}
  Times = {0}
  Depth = 0
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
