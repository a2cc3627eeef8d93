SPECIFICATION Spec
CONSTANTS
  N = 3
  Keys = {"a", "b"}
  Threads = {"s", "t"}
  Offers = {0, 1, 2}
  Kinds = {"good", "keys", "lengths"}
  Depth = 4
INVARIANTS Aligned OnlyOffered Once
PROPERTY NeverShrinks
VIEW MCView
CHECK_DEADLOCK FALSE
