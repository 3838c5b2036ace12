SPECIFICATION Spec
CONSTANTS Mx = 12
 Depth = 5
INVARIANTS Holds Window
