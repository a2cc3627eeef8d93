SPECIFICATION Spec
CONSTANTS
  Lengths = {6}
  Moments = {2}
  Factors <- F2
  Shifts <- S2
  Delays = {}
  Depth = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
