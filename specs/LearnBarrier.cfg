SPECIFICATION Spec
CONSTANTS
  NInputs = 2
  MaxChunks = 2
  MaxSize = 2
  MaxSteps = 2
INVARIANTS Complete NotEarly OneRound AtTheEnd
PROPERTY Terminates
VIEW MCView
CHECK_DEADLOCK FALSE
