CONSTANTS
  Ls = {1, 2, 3, 4, 5, 6, 7, 8, 9}
  Ws = {1, 2, 3, 4, 5}
  Ss = {1, 2, 3, 4, 6}
  Chunks = {1, 2, 3, 4, 6, 9}
  MaxChunks = 9
SPECIFICATION Spec
INVARIANTS ChunkingIrrelevant PrefixAlways CacheIsNext
VIEW MCView
CHECK_DEADLOCK FALSE
