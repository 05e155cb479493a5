SPECIFICATION Spec
VIEW view
CONSTANTS
  KeySet = {1, 2}
  ValSet = {1, 2}
  MaxSnap = 3
INVARIANTS ViewExact SourceClean SameHistory
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
