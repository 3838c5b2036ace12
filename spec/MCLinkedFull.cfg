CONSTANTS
  NModels = 3
  Steps = 3
  MaxLinks = 3
  Runs = 2
  Cap = 7
  Models <- MCModels
  Times <- MCTimes
  Scens <- MCScens
  Links <- MCLinks
SPECIFICATION MSpec
INVARIANTS Timely Alone Whole Refused Again
CHECK_DEADLOCK FALSE
