SPECIFICATION Spec
CONSTANTS
  Kinds = {"resampled", "stft", "windowed", "gaps"}
  Ids = {1, 2}
  Sounds = {"early", "two", "silent"}
  Lengths = {5, 13}
  Chunks = {1, 2}
  Depth = 3
INVARIANT Complete
INVARIANT Sound
INVARIANT Agree
INVARIANT Own
PROPERTY Alone
VIEW MCView
CHECK_DEADLOCK FALSE
