SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  NFiles = 2
  MaxOps = 4
  Window = FALSE
INVARIANTS Readable Kept NoneLost NeverStuck
CHECK_DEADLOCK FALSE
