SPECIFICATION Spec
CONSTANTS
  Lib = {"mul", "weight", "meanstd", "shift", "inst", "unit", "slice", "perm", "abs", "reshape", "log"}
  MaxSteps = 4
  MaxRuns = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
