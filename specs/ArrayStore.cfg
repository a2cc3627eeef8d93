SPECIFICATION Spec
CONSTANTS
  Heads = {"a", "b"}
  Vals = {0, 1}
  RowLens = {1, 2, 8, 9}
  ChunkLens = {0, 1, 3}
  MaxChunks = 4
INVARIANTS RoundTrip Reversible
CHECK_DEADLOCK FALSE
