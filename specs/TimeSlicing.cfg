CONSTANTS
  Lengths = {0, 1, 3, 5}
  Freqs = {2, 3}
  Durs <- DursA
  Times <- TimesA
  Depth = 2
SPECIFICATION Spec
INVARIANTS Contiguous ClosedFormExact Monotone FullIsIdentity CutLosesNothing
CHECK_DEADLOCK FALSE
VIEW MCView
