SPECIFICATION Spec
CONSTANTS
  Years <- YearsFull
  Resets <- ResetsFull
INVARIANTS Fall Blocks Bounds Slot Knots Smooth
CHECK_DEADLOCK FALSE
