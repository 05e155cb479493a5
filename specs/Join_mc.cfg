SPECIFICATION Spec
CONSTANTS
  KeySet = {1, 2, 3}
  MaxRows = 2
  MaxFiles = 2
INVARIANTS RangesSound NullsNeverJoin CountOk
CHECK_DEADLOCK FALSE
