CONSTANTS
  Starts <- StartsA
  Lens = {0, 1, 2, 3, 5}
  Depth = 2
SPECIFICATION Spec
INVARIANTS AndIsIntersection AndCommutes AndAssociates AndIdempotent ShiftKeeps ContainedIsShared SlicesTile WindowRoundTrip
VIEW MCView
CHECK_DEADLOCK FALSE
