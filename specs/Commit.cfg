SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  NFiles = 2
  MaxOps = 3
  Window = FALSE
INVARIANTS Readable Kept NoneLost NeverStuck
CHECK_DEADLOCK FALSE
