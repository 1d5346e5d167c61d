SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Callers = {1,2,3}
  Length = 1
INVARIANTS Alone Untouched
