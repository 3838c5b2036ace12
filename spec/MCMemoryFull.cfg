SPECIFICATION Spec
CONSTANTS MaxN = 5
 Depth = 8
INVARIANTS Delay Mean
