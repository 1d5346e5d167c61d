SPECIFICATION Spec
CONSTANTS
  Steps = 80
CHECK_DEADLOCK FALSE
