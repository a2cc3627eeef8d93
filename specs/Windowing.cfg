CONSTANTS
  Ls = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Ws = {1, 2, 3, 4, 5, 7}
  Ss = {1, 2, 3, 4, 5, 8}
SPECIFICATION Spec
INVARIANTS UnpaddedExact PaddedExact RestIsNext NothingLost NDAgrees Emit
CHECK_DEADLOCK FALSE
