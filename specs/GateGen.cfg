SPECIFICATION Spec
CONSTANTS Depth = 3
          Detail = FALSE
VIEW HistView
INVARIANT Gen
CHECK_DEADLOCK FALSE
