SPECIFICATION Spec
CONSTANTS
  Rows = 2
  Cols = 2
  Ks = {2, 3}
  Levels <- L1
  Depth = 3
INVARIANT Ordered
INVARIANT Signs
INVARIANT Range
INVARIANT Inverse
INVARIANT Full
INVARIANT Louder
VIEW MCView
CHECK_DEADLOCK FALSE
