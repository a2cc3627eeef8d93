SPECIFICATION Spec
CONSTANTS
  Widths <- W2
  Moments = {2}
  Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
