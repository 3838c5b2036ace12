SPECIFICATION Spec
CONSTANTS
  Hundreds = {0, 1, 4, 7, 10, 12, 15, 18, 19, 20, 21, 23, 26, 29, 30, 33, 36, 38, 40}
  Shapes = {1, 2, 3}
INVARIANTS AnyOrder Laws Known
CHECK_DEADLOCK FALSE
