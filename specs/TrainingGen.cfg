SPECIFICATION Spec
CONSTANTS
  Epochs = 2
  Check = 1
  Batches = {0, 2}
  Cbs = {"a", "b"}
  Points = 2
  Freq = 2
  Depth = 5
INVARIANTS Emit
CHECK_DEADLOCK FALSE
