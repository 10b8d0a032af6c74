SPECIFICATION Spec
CONSTANTS
  B = 2
  W = 2
  M = 4
  MaxSize = 8
  Kinds = {"d", "h", "x"}
  Offs = {0, 1, 2, 3}
  Emit = FALSE
INVARIANTS Right InStep Complete
CHECK_DEADLOCK FALSE
