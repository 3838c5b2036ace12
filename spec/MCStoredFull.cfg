CONSTANTS
  Horizon = 7
  Blocks = {1, 2, 3, 4, 7}
  Runs = 4
SPECIFICATION Spec
INVARIANTS Complete OneRowEach Untouched NeverAhead Small
CHECK_DEADLOCK FALSE
