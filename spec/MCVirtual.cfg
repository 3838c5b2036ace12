SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Faithful Once Yearly Season
