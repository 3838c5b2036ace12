SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2, 5}
  Steps = 4
  Window_ = 3
INVARIANTS Incremental RingIsWindow Percentiles Scores Order Gaps
CHECK_DEADLOCK FALSE
