CONSTANTS
  Names = {a, b, c, d}
  Parts = 3
  Edits = 10
SPECIFICATION Spec
INVARIANTS SameNodes SameLinks Closed
CHECK_DEADLOCK FALSE
