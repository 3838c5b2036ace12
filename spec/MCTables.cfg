CONSTANTS
  R = {1, 2}
  C = {1, 2, 3}
  Reads = 1
SPECIFICATION Spec
INVARIANTS Verified NoGuess Missing Answered Arrangement CellFree Stepwise Repeat
CHECK_DEADLOCK FALSE
