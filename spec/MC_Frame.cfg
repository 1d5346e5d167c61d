SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Third = {0, 1, 4, 5, 10, 15, 31, 255}
  Fourth = {0, 1, 16, 20, 64, 85, 144, 192, 255}
INVARIANTS Length Prefix Classes Shape Legal Decided
