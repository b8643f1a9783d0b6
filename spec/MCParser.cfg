SPECIFICATION Spec
CONSTANTS
  MaxEntries = 1
  Full = TRUE
INVARIANTS RoundTrip Again NoLastLineEnd
CHECK_DEADLOCK FALSE
