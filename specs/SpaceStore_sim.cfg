SPECIFICATION SpecSim
CONSTANTS
  Clients = {"a", "b"}
  Names = {"x", "y"}
  KeySet = {1, 2}
  ValSet = {1, 2}
  MaxSnap = 6
  MaxMeta = 12
  WithRefs = TRUE
CHECK_DEADLOCK FALSE
