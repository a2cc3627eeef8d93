SPECIFICATION TraceSpec
CONSTANTS
  Atoms = {0, 1}
  MaxLen = 2
  Forms = {0, 1}
  Procs = {0, 1}
  Docs = {0, 1}
  Convs = {0, 1}
  Depth = 3
CHECK_DEADLOCK FALSE
