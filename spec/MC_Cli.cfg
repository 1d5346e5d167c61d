SPECIFICATION Spec
CONSTANTS
  Length = 2
  Levels = {0,1,2}
INVARIANTS Alone Refusals
PROPERTIES Kept Answered
CHECK_DEADLOCK FALSE
