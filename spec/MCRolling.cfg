SPECIFICATION Spec
CONSTANTS Mx = 6
 Depth = 5
INVARIANTS Holds Window
