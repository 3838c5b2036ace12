SPECIFICATION Spec
CONSTANTS Depth = 6
INVARIANTS Faithful Once Yearly Season
