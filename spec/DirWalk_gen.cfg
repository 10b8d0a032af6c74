SPECIFICATION Spec
CONSTANTS
  Universe <- SixNames
  MaxEnts = 5
  Hdr = 12
  Fixed = 8
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
