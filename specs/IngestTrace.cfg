SPECIFICATION TraceSpec
CONSTANTS
  Urls = {1, 2}
  N = 3
  Workers = 2
  Passes = 2
CHECK_DEADLOCK FALSE
