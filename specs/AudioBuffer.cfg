CONSTANTS
  Vals = {0, 2, 4}
  MaxLen = 2
  Depth = 3
  Pads = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS Shape MonoOfStereo PadKeeps
VIEW MCView
CHECK_DEADLOCK FALSE
