SPECIFICATION TraceSpec
CONSTANTS
  Epochs = 3
  Check = 2
  Batches = {0, 1, 2}
  Cbs = {"a", "b"}
  Points = 2
  Freq = 2
  Depth = 5
CHECK_DEADLOCK FALSE
