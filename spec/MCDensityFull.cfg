SPECIFICATION Spec
CONSTANTS
  Levels = {0, 3300, 10000}
  Steps = 3
  Scens = 2
  Width = 300
INVARIANTS SampleOK RelativeOK AssertOK
CHECK_DEADLOCK FALSE
