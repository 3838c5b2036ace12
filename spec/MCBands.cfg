SPECIFICATION Spec
CONSTANTS
  Levels = {0, 3, 5, 8, 10}
  Rels = {"LT", "GT", "LE", "GE", "EQ"}
INVARIANTS Latched Counts Monotone Ends Within Continuous InPair Relations
CHECK_DEADLOCK FALSE
