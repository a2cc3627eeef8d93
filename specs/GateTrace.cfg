SPECIFICATION TraceSpec
CONSTANTS Depth = 8
          Detail = FALSE
CHECK_DEADLOCK FALSE
