SPECIFICATION Spec
CONSTANTS
  B = 2
  W = 2
  M = 6
  MaxSize = 11
  Kinds = {"d", "h", "x"}
  Offs = {0, 1, 2, 3, 4, 5}
  Emit = FALSE
INVARIANTS Right InStep Complete
CHECK_DEADLOCK FALSE
