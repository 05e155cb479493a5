SPECIFICATION Spec
CONSTANTS
  Cats = {"c", "d"}
  Names = {"x", "y"}
  MaxRows = 2
INVARIANTS ListExact OpensAsCreated ViewFits
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
