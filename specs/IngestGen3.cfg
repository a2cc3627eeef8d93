SPECIFICATION Spec
CONSTANTS
  Urls = {1, 2, 3}
  N = 3
  Workers = 3
  Passes = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
