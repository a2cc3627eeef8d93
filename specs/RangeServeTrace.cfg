SPECIFICATION TraceSpec
CONSTANTS MaxSize = 6
          MaxPos = 8
          Depth = 1
CHECK_DEADLOCK FALSE
