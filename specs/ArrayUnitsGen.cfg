CONSTANTS
  Shapes <- ShapesB
  Kinds = {"I", "T", "F"}
  Depth = 1
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
