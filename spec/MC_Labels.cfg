SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"bds05"}
  Depth = 1
INVARIANTS Named
PROPERTY Exact
