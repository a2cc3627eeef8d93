CONSTANTS
  Shapes <- ShapesA
  Kinds = {"I", "T", "F"}
  Depth = 2
SPECIFICATION Spec
INVARIANTS TypeOK NoInvention BandsInside TwiceT SqueezeIdem SumConserves
CHECK_DEADLOCK FALSE
VIEW View
