CONSTANTS
  Names = {a, b, c}
  Parts = 3
  Edits = 6
SPECIFICATION Spec
INVARIANTS SameNodes SameLinks Closed
CHECK_DEADLOCK FALSE
