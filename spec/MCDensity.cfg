SPECIFICATION Spec
CONSTANTS
  Levels = {0, 4000, 10000}
  Steps = 3
  Scens = 1
  Width = 300
INVARIANTS SampleOK RelativeOK AssertOK
CHECK_DEADLOCK FALSE
