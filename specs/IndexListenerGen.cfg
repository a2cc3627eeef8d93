SPECIFICATION GenSpec
CONSTANTS
  Docs = {1, 2}
  Insts = {1}
  MaxEvents = 3
  Depth = 5
INVARIANTS Emit
CHECK_DEADLOCK FALSE
