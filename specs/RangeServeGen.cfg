SPECIFICATION Spec
CONSTANTS MaxSize = 4
          MaxPos = 5
          Depth = 1
VIEW MCView
INVARIANT Gen
CHECK_DEADLOCK FALSE
