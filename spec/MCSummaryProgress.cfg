CONSTANTS
  Steps = 230
  Routes = 1
  Flows = {1}
  Nodes = {"a"}
SPECIFICATION Spec
INVARIANTS Honest Fresh Complete 
CHECK_DEADLOCK FALSE
