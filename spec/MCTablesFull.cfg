CONSTANTS
  R = {1, 2}
  C = {1, 2}
  Reads = 2
SPECIFICATION Spec
INVARIANTS Verified NoGuess Missing Answered Arrangement CellFree Stepwise Repeat
CHECK_DEADLOCK FALSE
