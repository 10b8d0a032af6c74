SPECIFICATION Fair
CONSTANTS
  Threads = {1, 2}
  Keys = {1, 2}
  Slots = 1
  Reads = 3
  Variant = "ok"
PROPERTIES Ends
CHECK_DEADLOCK FALSE
