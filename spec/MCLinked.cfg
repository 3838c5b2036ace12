CONSTANTS
  NModels = 3
  Steps = 3
  MaxLinks = 2
  Runs = 2
  Cap = 5
  Models <- MCModels
  Times <- MCTimes
  Scens <- MCScens
  Links <- MCLinks
SPECIFICATION MSpec
INVARIANTS Timely Alone Whole Refused Again
CHECK_DEADLOCK FALSE
