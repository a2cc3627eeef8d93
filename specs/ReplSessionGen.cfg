SPECIFICATION Spec
CONSTANTS Depth = 3
          Ks = {1, 3}
INVARIANT Gen
CHECK_DEADLOCK FALSE
