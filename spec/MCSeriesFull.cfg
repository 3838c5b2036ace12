SPECIFICATION Spec
CONSTANTS
  Lens = {12, 24, 36, 48, 72, 168, 720}
  Steps = {24, 48, 72, 96, 120, 168, 240}
  Days = 60
  Starts = {72, 168, 192, 216, 228, 240, 252, 264, 276, 480}
INVARIANTS Agrees Same Full
CHECK_DEADLOCK FALSE
