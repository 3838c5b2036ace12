SPECIFICATION MCSpec
CONSTANTS
  Users = {"a", "b"}
  Grid <- MCGrid
  MaxLen = 3
  Limits <- MCLimits
INVARIANTS RoundTrip InOrder Agree
PROPERTY Apart
CHECK_DEADLOCK FALSE
