SPECIFICATION Spec
CONSTANTS
  Codes = {5}
  Docs = {1, 2}
  Most = 3
  N = 1
  Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
