CONSTANTS
  Kinds = {"merge", "memory", "rowwise", "pooled"}
  MaxLen = 2
  Chunks = {1, 2}
SPECIFICATION SSpec
INVARIANTS EmitGen
CHECK_DEADLOCK FALSE
