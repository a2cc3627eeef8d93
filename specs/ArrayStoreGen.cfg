SPECIFICATION Spec
CONSTANTS
  Heads = {"a"}
  Vals = {0}
  RowLens = {1, 3, 8, 9, 16, 17}
  ChunkLens = {0, 1, 2, 5}
  MaxChunks = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
