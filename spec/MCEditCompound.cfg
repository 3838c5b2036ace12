SPECIFICATION MSpec
CONSTANTS
  MaxNodes = 3
  MaxLen = 6
  Kinds <- MCCompound
  Names = {"a", "b"}
INVARIANTS Unique Sound Consistent UpToDate RoutesSound
PROPERTY Unchanged
CHECK_DEADLOCK FALSE
