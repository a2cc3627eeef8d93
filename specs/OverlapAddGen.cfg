SPECIFICATION Spec
CONSTANTS
  Ws = {1, 2, 4}
  Hs = {1, 2, 3, 4}
  Vals = {1, 2}
  MaxFrames = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
