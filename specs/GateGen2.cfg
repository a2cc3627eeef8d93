SPECIFICATION Spec
CONSTANTS Depth = 2
          Detail = TRUE
VIEW HistView
INVARIANT Gen
CHECK_DEADLOCK FALSE
