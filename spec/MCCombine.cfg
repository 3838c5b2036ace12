SPECIFICATION Spec
CONSTANTS
  Hundreds = {0, 7, 15, 20, 23, 30, 38}
  Shapes = {1, 2, 3}
INVARIANTS AnyOrder Laws Known
CHECK_DEADLOCK FALSE
