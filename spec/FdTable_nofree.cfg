SPECIFICATION Spec
CONSTANTS
  t1 = t1
  t2 = t2
  t3 = t3
  Threads = {t1, t2}
  Calls = 3
  Low = 1
  Max = 4
  Factor = 2
  Faults = TRUE
  Foreign = TRUE
  Variant = "nofree"
INVARIANTS TypeOK Agree Inside EndRight Held NoLeak Once Results
CHECK_DEADLOCK FALSE
