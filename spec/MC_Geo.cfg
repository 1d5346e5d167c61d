SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Grid = 30
  Fine = 3
INVARIANTS Symmetric Origin Bounds Triangle Meridian Accepted Pythagoras Addition
