SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Frames <- SomeFrames
  Messages <- SomeMessages
  Versions3 = {0, 1, 2, 3}
  Codes = 40
INVARIANTS Meant Distinct OneParser OneContent Classes
