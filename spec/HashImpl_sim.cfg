SPECIFICATION Spec
CONSTANTS
  Keys = {1,2,3,5,9,16,17,33,40,64,65,99,128,257,1023,1024,2049,4096,65536,131072,16777216,2147483647}
  Vals = {7,0,2147483647}
  Caps = {1,2,4,8,16}
  Depth = 60
  MaxStack = 40
INVARIANTS Refines Counted Placed Fits Printed
CHECK_DEADLOCK FALSE
