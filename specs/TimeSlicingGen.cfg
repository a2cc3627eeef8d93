CONSTANTS
  Lengths = {0, 1, 3, 5}
  Freqs = {2, 3}
  Durs <- DursA
  Times <- TimesA
  Depth = 1
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
