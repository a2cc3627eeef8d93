SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2}
  Kinds = {"url", "request", "path", "file", "zip", "meta", "text"}
  Depth = 5
INVARIANT Own
PROPERTY Latest
VIEW MCView
CHECK_DEADLOCK FALSE
