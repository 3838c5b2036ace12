SPECIFICATION Spec
CONSTANTS
  Years <- YearsQuick
  Resets <- ResetsQuick
INVARIANTS Fall Blocks Bounds Slot Knots Smooth
CHECK_DEADLOCK FALSE
