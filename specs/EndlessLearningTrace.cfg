SPECIFICATION TraceSpec
CONSTANTS
  Sizes = {1, 2}
  Keeps = {1, 9}
  Caps = {1, 2}
  Steps = 2
  MaxDocs = 3
  MaxRounds = 2
  Depth = 9
CHECK_DEADLOCK FALSE
