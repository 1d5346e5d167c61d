SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Latitudes <- QuickLatitudes
  Longitudes <- QuickLongitudes
  Headings <- SomeHeadings
  Steps = 4
  Surface = FALSE
INVARIANTS Codes Range LocalBack GlobalBack Accepts LocalAccepts
