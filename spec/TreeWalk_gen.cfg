SPECIFICATION Spec
CONSTANTS
  MaxNodes = 6
  MaxCuts = 3
  Emit = TRUE
INVARIANT Printed
CHECK_DEADLOCK FALSE
