CONSTANTS
  Lengths = {4}
  Freqs = {2}
  Durs <- DursB
  Times <- TimesB
  Depth = 2
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
