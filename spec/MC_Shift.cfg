SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Rows = {0, 1, 2, 31, 32, 63}
INVARIANTS Undone Linear
