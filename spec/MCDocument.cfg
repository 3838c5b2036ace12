SPECIFICATION MSpec
CONSTANTS
  Defs <- MCDefs
  MaxNeeds = 1
  Big = FALSE
INVARIANTS Verdict Whole Ordered
CHECK_DEADLOCK FALSE
