SPECIFICATION BSpec
CONSTANTS
  Users = {}
  Most_ = 9
  Unit = 64
INVARIANTS Bracket Right Shows
PROPERTY Ends
CHECK_DEADLOCK FALSE
