SPECIFICATION Spec
CONSTANTS
  Urls = {1, 2}
  N = 2
  Workers = 2
  Passes = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
