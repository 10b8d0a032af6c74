SPECIFICATION Spec
CONSTANTS
  B = 2
  W = 2
  M = 4
  MaxSize = 9
  Kinds = {"c", "h"}
  Offs = {0, 1, 2, 3}
  Emit = TRUE
INVARIANTS Printed
CHECK_DEADLOCK FALSE
