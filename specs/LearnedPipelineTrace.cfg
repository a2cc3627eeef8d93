SPECIFICATION TraceSpec
CONSTANTS
  Lib = {"mul", "half", "weight", "meanstd", "shift", "inst", "unit", "slice", "perm", "reshape", "abs"}
  MaxSteps = 3
  MaxRuns = 1
CHECK_DEADLOCK FALSE
