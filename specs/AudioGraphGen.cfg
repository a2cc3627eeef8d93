SPECIFICATION Spec
CONSTANTS
  Kinds = {"audio"}
  Ids = {1, 2}
  Sounds = {"early", "two", "silent"}
  Lengths = {13}
  Chunks = {1, 2}
  Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
