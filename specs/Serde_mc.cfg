SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 2}
 MaxRows = 2
INVARIANTS Stored Inverse
PROPERTIES Faithful
CHECK_DEADLOCK FALSE
