SPECIFICATION Spec
CONSTANTS
  Codes = {0, 1, 129, 255}
  Ks = {1, 2, 3, 4, 6}
  Threads = {1, 2}
  Most = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
