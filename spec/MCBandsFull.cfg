SPECIFICATION Spec
CONSTANTS
  Levels = {0, 1, 2, 4, 5, 6, 8, 9, 10}
  Rels = {"LT", "GT", "LE", "GE", "EQ"}
INVARIANTS Latched Counts Monotone Ends Within Continuous InPair Relations
CHECK_DEADLOCK FALSE
