SPECIFICATION Spec
CONSTANTS
  MaxNodes = 4
  MaxCuts = 3
  Emit = FALSE
PROPERTY Ends
CHECK_DEADLOCK FALSE
