SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Pieces = 2
  Versions = 2
  Depth = 7
INVARIANT Whole
PROPERTY Kept
PROPERTY NoNetwork
PROPERTY Retry
VIEW MCView
CHECK_DEADLOCK FALSE
