SPECIFICATION Spec
CONSTANTS
  Sizes = {1}
  Keeps = {1}
  Caps = {1}
  Steps = 1
  MaxDocs = 3
  MaxRounds = 3
  Depth = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
