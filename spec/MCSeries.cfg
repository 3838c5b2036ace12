SPECIFICATION Spec
CONSTANTS
  Lens = {12, 24, 48, 168}
  Steps = {24, 48, 72, 168}
  Days = 21
  Starts = {192, 240, 276}
INVARIANTS Agrees Same Full
CHECK_DEADLOCK FALSE
