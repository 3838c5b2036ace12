SPECIFICATION MSpec
CONSTANTS
  Defs <- MCDefs
  MaxNeeds = 2
  Big = TRUE
INVARIANTS Verdict Whole Ordered
CHECK_DEADLOCK FALSE
