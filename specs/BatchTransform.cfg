SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 5}
  Items = {0, 1, 3}
  Chunks = {1, 2, 9}
  Depth = 5
INVARIANT InPlace
INVARIANT Whole
INVARIANT Apart
INVARIANT Undone
INVARIANT Same
INVARIANT Covered
VIEW MCView
CHECK_DEADLOCK FALSE
