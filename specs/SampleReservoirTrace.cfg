SPECIFICATION TraceSpec
CONSTANTS
  N = 3
  Keys = {"a", "b"}
  Threads = {"s", "t"}
  Offers = {0, 1, 2}
  Kinds = {"good", "keys", "lengths"}
  Depth = 3
CHECK_DEADLOCK FALSE
