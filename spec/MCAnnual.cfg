SPECIFICATION Spec
CONSTANTS
  Lens <- LensDef
  Sizes = {1, 2, 5}
  Flows = {0, 2}
  Indices = {0, 1}
  Threshold = 1
  From = 2
  To = 3
  Horizon = 4
INVARIANTS Splits Totals Once Over
CHECK_DEADLOCK FALSE
