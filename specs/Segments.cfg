CONSTANTS
  MaxN = 6
  Fs = {1, 3}
SPECIFICATION Spec
INVARIANTS Tiles NoGap PrefixAlways
VIEW MCView
CHECK_DEADLOCK FALSE
