SPECIFICATION LiveSpec
CONSTANTS
  Walkers = {1}
  Sizes = {0, 1, 2}
  MaxPages = 2
  Limits = {0, 1, 3, 9}
  Depth = 8
INVARIANT InOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
