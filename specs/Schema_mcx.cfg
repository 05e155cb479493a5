SPECIFICATION Spec
CONSTANTS Wide = TRUE
INVARIANTS RoundTrip OnlyValid Numbered
PROPERTIES Stays
CHECK_DEADLOCK FALSE
