SPECIFICATION TraceSpec
CONSTANTS
  Docs = {1, 2}
  Kinds = {"url", "request", "path", "file", "zip", "meta", "text"}
  Depth = 5
CHECK_DEADLOCK FALSE
