SPECIFICATION Spec
CONSTANTS
  Widths <- W1
  Moments = {1, 2}
  Depth = 3
INVARIANT Place
INVARIANT Ordered
INVARIANT OneTimeAxis
VIEW MCView
CHECK_DEADLOCK FALSE
