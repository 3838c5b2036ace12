SPECIFICATION Spec
CONSTANTS MaxN = 4
 Depth = 6
INVARIANTS Delay Mean
