SPECIFICATION Spec
CONSTANTS
  N = 1
  Keys = {"a"}
  Threads = {"s"}
  Offers = {0, 1, 7}
  Kinds = {"good", "keys", "lengths", "shape", "get", "batch"}
  Depth = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
