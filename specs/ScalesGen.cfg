SPECIFICATION Spec
CONSTANTS
  Top = 4
  MaxBands = 3
  Values = {2}
  Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
