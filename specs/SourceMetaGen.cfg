SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2}
  Kinds = {"url", "request", "path", "file", "zip", "meta"}
  Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
