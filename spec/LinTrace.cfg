SPECIFICATION LinSpec
CONSTANTS
  MaxChain = 32
  MaxDepth = 32
  MaxTotal = 1024
  PathMax = 2048
POSTCONDITION LinAccepted
CHECK_DEADLOCK FALSE
