SPECIFICATION FineSpec
CONSTANTS
  Handles = {1, 2, 3}
  Sizes = {0, 8, 16, 7}
  Metas = {1}
  Depth = 3
INVARIANTS Retained NoGhost SyncExact WriteOnly Exclusive
PROPERTIES SizeFixed Durable
VIEW MCView
CHECK_DEADLOCK FALSE
