SPECIFICATION Spec
CONSTANTS
  Lens <- LensDef
  Steps = {1, 2, 3, 4, 5, 6, 7}
  Amount = 60
  Rates = {0, 3, 7, 15, 30}
INVARIANTS Pos Capped Account Offers
CHECK_DEADLOCK FALSE
