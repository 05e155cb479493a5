SPECIFICATION Spec
VIEW view
CONSTANTS
  Clients = {"a", "b"}
  Names = {"x"}
  KeySet = {1, 2}
  ValSet = {1}
  MaxSnap = 3
  MaxMeta = 5
  WithRefs = FALSE
INVARIANTS TypeOK RefsOK LogOK InsertedOnce OneWinner
PROPERTIES Immutable HeadMove NoSpuriousMove NoLostCommit
CHECK_DEADLOCK FALSE
