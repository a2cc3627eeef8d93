CONSTANTS
  Starts <- StartsA
  Lens = {1, 2, 4}
  Size = 2
  Queries <- QueriesA
  Depth = 3
SPECIFICATION Spec
INVARIANTS AlwaysSorted QueryExact SpanCovers SpanIsAll
VIEW MCView
CHECK_DEADLOCK FALSE
