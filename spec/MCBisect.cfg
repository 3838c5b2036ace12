SPECIFICATION BSpec
CONSTANTS
  Users = {}
  Most_ = 4
  Unit = 16
INVARIANTS Bracket Right Shows
PROPERTY Ends
CHECK_DEADLOCK FALSE
