CONSTANTS
  Kinds = {"merge", "memory", "rowwise", "pooled"}
  MaxLen = 3
  Chunks = {1, 2, 3}
SPECIFICATION SSpec
INVARIANTS InOrderAligned CompleteAtEnd NothingEarly
VIEW SView
CHECK_DEADLOCK FALSE
