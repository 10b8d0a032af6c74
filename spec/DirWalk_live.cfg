SPECIFICATION Spec
CONSTANTS
  Universe <- SixNames
  MaxEnts = 3
  Hdr = 12
  Fixed = 8
  Emit = FALSE
PROPERTY Ends
CHECK_DEADLOCK FALSE
