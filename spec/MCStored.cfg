CONSTANTS
  Horizon = 5
  Blocks = {1, 2, 3, 5}
  Runs = 3
SPECIFICATION Spec
INVARIANTS Complete OneRowEach Untouched NeverAhead Small
CHECK_DEADLOCK FALSE
