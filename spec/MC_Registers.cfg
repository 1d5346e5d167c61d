SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {}
  Depth = 1
INVARIANTS Shaped Ignored
PROPERTY Local
