SPECIFICATION Spec
CONSTANTS
  ValSet = {0, 1, 2}
  ConstSet = {1}
  MaxRows = 2
  Depth = 2
INVARIANTS Sound
CHECK_DEADLOCK FALSE
