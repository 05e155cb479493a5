SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  NFiles = 2
  MaxOps = 3
  Window = TRUE
INVARIANTS Readable Kept NeverStuck
CHECK_DEADLOCK FALSE
