SPECIFICATION Spec
CONSTANTS
  Lib = {"mul", "half", "weight", "meanstd", "shift", "inst", "unit", "slice", "perm", "reshape", "abs"}
  MaxSteps = 3
  MaxRuns = 1
INVARIANTS RoundTrip SliceTrip Composes Learned
CHECK_DEADLOCK FALSE
