SPECIFICATION Spec
CONSTANTS
  Keys = {1,3,5,4294967}
  Vals = {7}
  Caps = {1,2}
  Depth = 4
  MaxStack = 0
INVARIANTS Refines Counted Placed Fits Printed
CHECK_DEADLOCK FALSE
