SPECIFICATION Spec
CONSTANTS
  Keys = {1,2,3,5,9}
  Vals = {1,2}
  Caps = {1,2,4}
  Depth = 30
  MaxStack = 0
VIEW View
INVARIANTS Refines Counted Placed Fits
CHECK_DEADLOCK FALSE
