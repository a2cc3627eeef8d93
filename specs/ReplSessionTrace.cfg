SPECIFICATION TraceSpec
CONSTANTS Depth = 4
          Ks = {1, 3}
CHECK_DEADLOCK FALSE
