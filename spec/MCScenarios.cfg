SPECIFICATION Spec
INVARIANTS Exact Ordered
