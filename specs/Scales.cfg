SPECIFICATION Spec
CONSTANTS
  Top = 4
  MaxBands = 3
  Values = {1, 3}
  Depth = 4
INVARIANT Linearity
INVARIANT Contiguous
INVARIANT Meeting
INVARIANT Monotone
INVARIANT Tiled
VIEW MCView
CHECK_DEADLOCK FALSE
