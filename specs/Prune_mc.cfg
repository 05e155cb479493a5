SPECIFICATION Spec
CONSTANTS
  ValSet = {0, 1, 2}
  ConstSet = {0, 1}
  MaxRows = 2
  Depth = 1
INVARIANTS Sound
CHECK_DEADLOCK FALSE
