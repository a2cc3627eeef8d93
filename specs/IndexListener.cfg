SPECIFICATION FineSpec
CONSTANTS
  Docs = {1, 2}
  Insts = {1, 2}
  MaxEvents = 3
  Depth = 0
INVARIANTS Once Whole Nothing CaughtUp NoSkip
VIEW MCView
CHECK_DEADLOCK FALSE
