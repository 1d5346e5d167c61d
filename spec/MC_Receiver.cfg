SPECIFICATION Spec
CONSTANTS
  Length = 3
  Kinds = {"position", "name", "velocity", "call", "reply4", "reply21", "status", "advisory", "target"}
  Damages = {{7}, {12, 40, 41, 56}}
  Bases = {1, 2}
PROPERTIES Heard FromSender Untouched Truth Place Soon Allowed_
CHECK_DEADLOCK FALSE
