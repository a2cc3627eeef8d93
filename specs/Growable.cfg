SPECIFICATION Spec
CONSTANTS
  Phys0 = {0, 1, 3}
  Pos0 = {0, 1, 3, 5}
  Rates = {1, 50, 100, 300}
  Sizes = {0, 1, 2, 5}
  Depth = 3
INVARIANT Content
CHECK_DEADLOCK FALSE
