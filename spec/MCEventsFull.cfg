SPECIFICATION Spec
CONSTANTS
  Scens = {1, 2}
  Horizon = 7
  Lengths = {1, 2, 4}
INVARIANTS Right Apart Sound
CHECK_DEADLOCK FALSE
