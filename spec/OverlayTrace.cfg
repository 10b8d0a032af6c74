SPECIFICATION TraceSpec
CONSTANTS
  MaxChain = 32
  MaxDepth = 32
  MaxTotal = 1024
  PathMax = 2048
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
