SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Keys = {1, 2, 3}
  Slots = 2
  Reads = 3
  Variant = "nolock"
INVARIANTS Right ReleasedOnce NoneLost Slotted OnePlace
PROPERTIES FailsNow
CHECK_DEADLOCK FALSE
