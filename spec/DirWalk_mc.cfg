SPECIFICATION Spec
CONSTANTS
  Universe <- SixNames
  MaxEnts = 5
  Hdr = 12
  Fixed = 8
  Emit = FALSE
INVARIANTS Found Resumed
CHECK_DEADLOCK FALSE
