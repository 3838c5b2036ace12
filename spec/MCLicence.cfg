SPECIFICATION Spec
CONSTANTS
  Lens <- LensDef
  Steps = {1, 3, 5}
  Amount = 60
  Rates = {0, 15}
INVARIANTS Pos Capped Account Offers
CHECK_DEADLOCK FALSE
