SPECIFICATION Spec
CONSTANTS
  Widths <- W3
  Moments = {1, 3}
  Depth = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
