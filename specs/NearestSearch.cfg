SPECIFICATION Spec
CONSTANTS
  Codes = {0, 1, 255}
  Ks = {0, 1, 2, 5}
  Threads = {1, 2, 3}
  Most = 3
INVARIANTS ChunkingIrrelevant Correct FindsStored Metric
CHECK_DEADLOCK FALSE
