SPECIFICATION Spec
CONSTANTS Wide = FALSE
INVARIANTS RoundTrip OnlyValid Numbered
PROPERTIES Stays
CHECK_DEADLOCK FALSE
