SPECIFICATION Spec
CONSTANTS
  B = 2
  W = 2
  M = 4
  MaxSize = 5
  Kinds = {"d", "h", "x"}
  Offs = {0, 3}
  Emit = FALSE
PROPERTY Ends
CHECK_DEADLOCK FALSE
