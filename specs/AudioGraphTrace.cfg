SPECIFICATION TraceSpec
CONSTANTS
  Kinds = {"resampled", "stft", "windowed", "gaps"}
  Ids = {1, 2}
  Sounds = {"early", "two", "silent"}
  Lengths = {5, 13}
  Chunks = {1, 2}
  Depth = 3
CHECK_DEADLOCK FALSE
