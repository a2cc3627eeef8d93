SPECIFICATION Spec
CONSTANTS
  Ratios <- R1
  Look = 2
  Sizes = {0, 1, 2, 5}
  Depth = 4
INVARIANT Tiled
INVARIANT NotEarly
INVARIANT Whole
PROPERTY Grows
VIEW MCView
CHECK_DEADLOCK FALSE
