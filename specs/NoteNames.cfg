SPECIFICATION Spec
CONSTANTS
  Start = 5
  Depth = 40
INVARIANT Adds
INVARIANT OneName
VIEW MCView
CHECK_DEADLOCK FALSE
