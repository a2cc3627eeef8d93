CONSTANTS
  Lens = {}
  Headers = {}
  Widths = {}
  Wants = {}
  Maxes = {}
  Chunks = {}
  MaxChunks = 0
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
