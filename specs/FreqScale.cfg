CONSTANTS
  Depth = 3
SPECIFICATION Spec
INVARIANTS IsRun MetIsARun BinarySearchExact OwnBandIsIncluded
CHECK_DEADLOCK FALSE
VIEW View
