SPECIFICATION Spec
CONSTANTS
  Scens = {1, 2}
  Horizon = 5
  Lengths = {1, 2, 3}
INVARIANTS Right Apart Sound
CHECK_DEADLOCK FALSE
