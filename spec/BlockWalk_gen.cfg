SPECIFICATION Spec
CONSTANTS
  B = 2
  W = 2
  M = 4
  MaxSize = 6
  Kinds = {"s", "c", "h", "x"}
  Offs = {0}
  Emit = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
