CONSTANTS
  Steps = 3
  Routes = 2
  Flows = {0, 3}
  Nodes = {"a", "b"}
SPECIFICATION Spec
INVARIANTS Honest Fresh Complete Conserved Merged Distinct LeftOut Ordered
CHECK_DEADLOCK FALSE
