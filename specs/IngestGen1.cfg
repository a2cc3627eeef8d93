SPECIFICATION Spec
CONSTANTS
  Urls = {1, 2}
  N = 3
  Workers = 1
  Passes = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
