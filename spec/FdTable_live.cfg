SPECIFICATION Fair
CONSTANTS
  t1 = t1
  t2 = t2
  t3 = t3
  Threads = {t1, t2}
  Calls = 3
  Low = 1
  Max = 3
  Factor = 2
  Faults = TRUE
  Foreign = TRUE
  Variant = "ok"
PROPERTIES Ends
CHECK_DEADLOCK FALSE
