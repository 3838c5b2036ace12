SPECIFICATION MSpec
CONSTANTS
  MaxNodes = 3
  MaxLen = 6
  Kinds <- MCPlain
  Names = {"a", "b", "c"}
INVARIANTS Unique Sound Consistent UpToDate RoutesSound
PROPERTY Unchanged
CHECK_DEADLOCK FALSE
