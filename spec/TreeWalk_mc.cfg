SPECIFICATION Spec
CONSTANTS
  MaxNodes = 6
  MaxCuts = 3
  Emit = FALSE
INVARIANTS Prefix All
CHECK_DEADLOCK FALSE
