SPECIFICATION Spec
CONSTANTS
  Universe <- SevenNames
  MaxEnts = 6
  Hdr = 12
  Fixed = 8
  Emit = FALSE
INVARIANTS Found Resumed
CHECK_DEADLOCK FALSE
