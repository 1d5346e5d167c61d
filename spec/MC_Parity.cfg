SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxErrors = 3
  MaxBurst = 12
  Length = 112
INVARIANTS Detected Odd
