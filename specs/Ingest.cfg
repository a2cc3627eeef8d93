SPECIFICATION Spec
CONSTANTS
  Urls = {1, 2}
  N = 3
  Workers = 2
  Passes = 2
INVARIANTS Once Skipped Untouched Tried Stored Failed Alone Quiet
PROPERTY Finishes
VIEW MCView
CHECK_DEADLOCK FALSE
