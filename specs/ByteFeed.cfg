CONSTANTS
  Lens = {1, 2, 4, 6}
  Headers = {0, 3}
  Widths = {1, 2, 3}
  Wants = {1, 2, 6}
  Maxes = {0, 2, 100}
  Chunks = {1, 2, 3, 5, 8}
  MaxChunks = 8
SPECIFICATION Spec
INVARIANTS InOrderOnce AllAtEnd HeldIsAhead FrameAligned
VIEW MCView
CHECK_DEADLOCK FALSE
