SPECIFICATION Spec
CONSTANTS
  Atoms = {0, 1}
  MaxLen = 2
  Forms = {0}
  Procs = {0, 1}
  Docs = {0}
  Convs = {0, 1}
  Depth = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
